//! The interface used wrongly: it may panic or report errors, but do nothing undefined.

use crate::core_checks::{plain_packet, secret, Keys};
use crate::ctx::{CaseResult, Ctx};
use crate::entropy::SrvRng;
use crate::rng::R;
use crate::{bridge, wire};
use nora_ssh_core::cipher::Cipher;
use nora_ssh_core::data::{parse_string, AsciiStr, NameList};
use nora_ssh_core::identifier::Identifier;
use nora_ssh_core::key_exchange::{Direction, KeyMaterial};
use nora_ssh_core::message::key_exchange::ecdh;
use nora_ssh_core::message::{channel::session::SessionRequest, userauth::format_sign_data, Message};
use nora_ssh_core::packet::{BlockSize, Packet};
use rand::SeedableRng;
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Use every byte, so that an invalid reference is noticed.
fn sum(b: &[u8]) -> u64 {
    black_box(b.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(u64::from(*x))))
}

fn exact(r: &mut R, n: usize) -> Box<[u8]> {
    r.bytes(n).into_boxed_slice()
}

pub fn misuse(ctx: &mut Ctx) -> CaseResult {
    static QUIET: std::sync::Once = std::sync::Once::new();
    QUIET.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !MISUSE.with(|m| m.get()) {
                old(i)
            }
        }));
    });
    thread_local!(static MISUSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    MISUSE.with(|m| m.set(true));
    for _ in 0..if cfg!(miri) { 2 } else { 10 } {
        let mut pan = 0;
        let mut n = 0;
        for f in [wrap, wrap_raw, crypt, keys, hash, messages, strings] {
            n += 1;
            let r = &mut ctx.r;
            pan += u64::from(catch_unwind(AssertUnwindSafe(|| f(r))).is_err());
        }
        ctx.count("misuse", n);
        ctx.count("misuse refused by a panic", pan);
    }
    MISUSE.with(|m| m.set(false));
    Ok(())
}

fn block(r: &mut R) -> BlockSize {
    *r.pick(&[BlockSize::B8, BlockSize::B16, BlockSize::B32, BlockSize::B64])
}

fn visit(r: &mut R, mut p: Packet<'_>) {
    for _ in 0..3 {
        let k = r.below(8);
        let v = *r.pick(&[0u32, 1, 2, 4, 8, 60, 255, 256, 1 << 31, u32::MAX]);
        let v = if r.chance(1, 2) { r.below(80) as u32 } else { v };
        let c = r.u8();
        let _ = catch_unwind(AssertUnwindSafe(|| match k {
            0 => *p.packet_len_bytes_mut() = v.to_be_bytes(),
            1 => p.packet_bytes_mut()[0] = c,
            2 => {
                sum(p.packet_bytes());
            }
            3 => {
                sum(p.payload());
            }
            4 => {
                sum(p.as_raw());
            }
            5 => p.payload_mut().fill(c),
            6 => p.as_raw_mut().fill(c),
            _ => {
                black_box((p.packet_len(), p.padding_len(), p.payload_len()));
                sum(p.packet_len_bytes());
            }
        }));
    }
    if r.chance(1, 2) {
        let extra = *r.pick(&[0usize, 1, 16, 17, 1000, usize::MAX, usize::MAX - 8]);
        let o = p.into_raw(extra);
        sum(o);
        o.fill(1);
    } else {
        let o = p.into_payload();
        sum(o);
        o.fill(1);
    }
}

fn wrap(r: &mut R) {
    // Buffers around the needed size, and closures which do not tell the truth.
    let n = r.below(100);
    let mut b = exact(r, n);
    let len = match r.below(4) {
        0 => n.saturating_sub(5),
        1 => r.below(n + 100),
        2 => n.saturating_sub(r.below(20)),
        _ => r.below(n + 1),
    };
    let (bs, incl, g) = (block(r), r.chance(1, 2), SrvRng::from_entropy());
    let p = Packet::wrap(&mut b, bs, incl, |_| len, g);
    visit(r, p);
}

fn wrap_raw(r: &mut R) {
    let n = r.below(100);
    let mut b = exact(r, n);
    if n >= 5 && r.chance(4, 5) {
        let l = if r.chance(1, 2) { (n - 4) & !7 } else { r.below(n + 9) };
        b[..4].copy_from_slice(&(l as u32).to_be_bytes());
        if r.chance(1, 2) {
            b[4] = r.below(l + 2) as u8;
        }
    }
    let (bs, incl) = (block(r), r.chance(1, 2));
    if let Ok(p) = Packet::wrap_raw(&mut b, incl, bs) {
        visit(r, p);
    }
}

fn crypt(r: &mut R) {
    let k = Keys::gen(r);
    let (dir, seq) = (r.chance(1, 2), r.u8().into());
    let mut c = k.cipher(dir, seq);
    let n = *r.pick(&[0, 1, 3, 4, 5, 12, 15, 16, 17, 19, 20, 21, 27, 28, 40]);
    let mut b = exact(r, n);
    let _ = catch_unwind(AssertUnwindSafe(|| c.encrypt(&mut b)));
    let _ = catch_unwind(AssertUnwindSafe(|| c.decrypt_data(&mut b).is_ok()));
    sum(&b);
    // One that is accepted, cut.
    let p = plain_packet(r, 60);
    let mut b: Box<[u8]> = [&p[..], &[0; 16]].concat().into();
    let mut c = k.cipher(dir, seq);
    c.encrypt(&mut b);
    let cut = r.below(b.len() + 1);
    let mut b: Box<[u8]> = b[..cut].into();
    let mut c = k.cipher(dir, seq);
    let _ = c.decrypt_data(&mut b);
    sum(&b);
}

fn keys(r: &mut R) {
    let m = KeyMaterial::<sha2::Sha256>::new(secret(r), secret(r));
    let n = *r.pick(&[0, 0, 1, 2, 3, 5]);
    let fill = r.u8();
    let mut out: Box<[[u8; 32]]> = vec![[fill; 32]; n].into();
    let dir = || Direction::ServerToClient;
    let o = match r.below(3) {
        0 => m.initial_iv(dir(), &mut out),
        1 => m.encryption_key(dir(), &mut out),
        _ => m.integrity_key(dir(), &mut out),
    };
    sum(o);
}

fn hash(r: &mut R) {
    let mut v = |n| {
        let n = r.below(n);
        r.bytes(n).into_boxed_slice()
    };
    let (a, b, c, d, e) = (v(400), v(60), v(60), v(60), v(200));
    let mut buf = v(200);
    let (vc, vs) = (Identifier::new(&a), Identifier::new(&b));
    if let (Some(vc), Some(vs)) = (vc, vs) {
        sum(
            &ecdh::KeyExchangeDigest::<sha2::Sha256>::default()
                .update(&vc)
                .update(&vs)
                .update(&a)
                .update(&b)
                .update(&mut buf, &ecdh::Key { name: &b, blob: ecdh::KeyBlob { identifier: &c, q: &d } })
                .update(&d)
                .update(&c)
                .update(&e),
        );
    }
}

fn messages(r: &mut R) {
    // Serialise into anything; parse whatever came of it.
    let m = wire::gen_msg(r);
    let n = if r.chance(1, 3) { r.below(300) } else { wire::encode(&m).len().saturating_sub(r.below(6)) };
    let mut b = exact(r, n);
    let m = bridge::build(&m).expect("refused");
    let _ = catch_unwind(AssertUnwindSafe(|| m.serialize(&mut b).map(|o| sum(o.0)).is_some()));
    if let Ok(m) = Message::parse(&b) {
        let _ = bridge::extract(&m);
    }
    let v: Vec<Box<[u8]>> = (0..5)
        .map(|_| {
            let n = r.below(40);
            exact(r, n)
        })
        .collect();
    let n = r.below(220);
    let mut b = exact(r, n);
    let _ = catch_unwind(AssertUnwindSafe(|| sum(format_sign_data(&mut b, &v[0], &v[1], &v[2], &v[3], &v[4]).unwrap())));
    sum(&b);
    let t = *r.pick(wire::SESSION_TYPES);
    let _ = SessionRequest::parse(t, &b).map(|m| bridge::session_extract(&m).is_ok());
}

fn strings(r: &mut R) {
    let n = r.below(20);
    let mut b = exact(r, n);
    if r.chance(1, 2) {
        b.iter_mut().for_each(|c| *c &= 0x7f);
    }
    if n >= 4 && r.chance(3, 4) {
        let l = match r.below(5) {
            0 => u32::MAX - r.below(6) as u32,
            1 => 1 << 31,
            _ => r.below(n + 2) as u32,
        };
        b[..4].copy_from_slice(&l.to_be_bytes());
    }
    if let Some((x, y)) = parse_string(&b) {
        sum(x);
        sum(y);
    }
    if let Ok(s) = AsciiStr::try_from(&b[..]) {
        bridge::valid(s.into());
    }
    if let Ok(s) = NameList::try_from(&b[..]) {
        bridge::valid(s.into());
        for s in s.iter() {
            bridge::valid(s);
        }
    }
}
