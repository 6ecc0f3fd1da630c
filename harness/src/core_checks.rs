//! Checks of nora_ssh_core: C01-C05, C07 and the core half of C06.

use crate::bridge::*;
use crate::crypto;
use crate::entropy::{self, SrvRng};
use crate::rng::{sized, small, R};
use crate::run::{CaseResult, Check, Ctx};
use crate::wire::{self, Msg, F};
use nora_ssh_core::cipher::{ChaCha20Poly1305, Cipher};
use nora_ssh_core::data::{parse_string, AsciiStr, NameList};
use nora_ssh_core::key_exchange::{Direction, KeyMaterial};
use nora_ssh_core::message::{channel::session::SessionRequest, userauth::format_sign_data, Message};
use nora_ssh_core::packet::{BlockSize, Packet};
use rand::SeedableRng;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub const CHECKS: &[Check] = &[
    Check {
        id: "C01",
        run: c01,
        cases: (200_000, 4_000_000),
        rule: "messages and session requests generated from the RFC grammar (edge and random field values); \
               distinct = distinct encodings; each is serialised, compared with the reference encoder and parsed back",
        evaluations: "messages",
        needs: &["messages", "session_requests", "kex_replies"],
        level: "exploration",
        assumptions: &["the reference codec in wire.rs follows the RFCs"],
    },
    Check {
        id: "C02",
        run: c02,
        cases: (200_000, 4_000_000),
        rule: "byte strings made by damaging encoded messages (truncation at every offset, surplus bytes, \
               changed lengths, flipped bits), random bytes and name lists; distinct = distinct byte strings; \
               acceptance and every field are compared with the reference parser",
        evaluations: "byte_strings",
        needs: &["accepted", "rejected", "session_accepted", "session_rejected", "name_lists"],
        level: "exploration",
        assumptions: &["the reference parser in wire.rs follows the RFCs"],
    },
    Check {
        id: "C03",
        run: c03,
        cases: (30_000, 600_000),
        rule: "generated messages serialised into buffers of every size around the needed one with different \
               previous contents; distinct = distinct (encoding, buffer size)",
        evaluations: "serialisations",
        needs: &["fits", "too_small", "sign_data", "session"],
        level: "exploration",
        assumptions: &["the reference encoder in wire.rs follows the RFCs"],
    },
    Check {
        id: "C04",
        run: c04,
        cases: (100_000, 2_000_000),
        rule: "payloads of all lengths x block sizes x both alignments framed with a constant and with a varying \
               random generator and read back; byte strings read as packets; distinct = distinct packets",
        evaluations: "packets",
        needs: &["framed", "read_ok", "read_refused"],
        level: "exploration",
        assumptions: &["the buffer given for framing is large enough for the packet"],
    },
    Check {
        id: "C05",
        run: c05,
        cases: (50_000, 1_000_000),
        rule: "sequences of packets encrypted under generated keys, directions and sequence numbers, compared byte \
               for byte with an independent chacha20-poly1305@openssh.com and decrypted again; distinct = distinct ciphertexts",
        evaluations: "packets",
        needs: &["packets", "packets_decrypted"],
        level: "exploration",
        assumptions: &["the independent ChaCha20/Poly1305 (checked against RFC vectors at start) is right"],
    },
    Check {
        id: "C07",
        run: c07,
        cases: (100_000, 2_000_000),
        rule: "shared secrets (leading zeros, top bit, all zero) and hashes, all six letters, 1 to 8 blocks of \
               output, compared with an independent derivation; distinct = distinct outputs",
        evaluations: "derivations",
        needs: &["derivations", "leading_zero", "top_bit"],
        level: "exploration",
        assumptions: &["SHA-256 of the sha2 crate is right"],
    },
];

fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(400).map(|c| format!("{:02x}", c)).collect();
    if b.len() > 400 {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}

/// Serialise with plenty of space.
fn ser(m: &Message<'_>, cap: usize) -> Result<Vec<u8>, String> {
    let mut buf = vec![0xee; cap];
    match m.serialize(&mut buf) {
        Some((a, _)) => Ok(a.to_vec()),
        None => Err("does not serialise into a large buffer".into()),
    }
}

/// The accessors tell exactly the kind of message and the conversions back are lossless.
fn check_accessors(bytes: &[u8]) -> CaseResult {
    let parse = || Message::parse(bytes).map_err(|e| format!("refused: {:?}", e));
    let ty = bytes[0];
    macro_rules! top {
        ($t:expr, $f:ident, $g:ident) => {
            let m = parse()?;
            ensure!(m.$f().is_some() == $t, "{} of a message of type {} is {}", stringify!($f), ty, m.$f().is_some());
            match m.$g() {
                Some(v) => {
                    ensure!($t, "{} of a message of type {}", stringify!($g), ty);
                    let b = ser(&Message::from(v), bytes.len() + 64)?;
                    ensure!(b == bytes, "{} loses something: {} instead of {}", stringify!($g), hex(&b), hex(bytes));
                }
                None => ensure!(!$t, "{} refuses a message of type {}", stringify!($g), ty),
            }
        };
    }
    top!(ty == 1, as_disconnect, into_disconnect);
    top!(ty == 20, as_kex_init, into_kex_init);
    top!(ty == 30, as_kex_ecdh_init, into_kex_ecdh_init);
    top!(ty == 21, as_new_keys, into_new_keys);
    top!(ty == 5, as_service_request, into_service_request);
    top!(ty == 6, as_service_accept, into_service_accept);
    top!((50..80).contains(&ty), as_user_auth, into_user_auth);
    top!((90..128).contains(&ty), as_channel, into_channel);
    macro_rules! sub {
        ($o:ident, $w:path, $t:expr, $f:ident, $g:ident) => {
            let m = parse()?.$o().unwrap();
            ensure!(m.$f().is_some() == $t, "{} of a message of type {} is {}", stringify!($f), ty, m.$f().is_some());
            match m.$g() {
                Some(v) => {
                    ensure!($t, "{} of a message of type {}", stringify!($g), ty);
                    let b = ser(&$w(v.into()), bytes.len() + 64)?;
                    ensure!(b == bytes, "{} loses something: {} instead of {}", stringify!($g), hex(&b), hex(bytes));
                }
                None => ensure!(!$t, "{} refuses a message of type {}", stringify!($g), ty),
            }
        };
    }
    if (50..80).contains(&ty) {
        sub!(into_user_auth, Message::UserAuth, ty == 50, as_request, into_request);
        sub!(into_user_auth, Message::UserAuth, ty == 51, as_failure, into_failure);
        sub!(into_user_auth, Message::UserAuth, ty == 52, as_success, into_success);
        sub!(into_user_auth, Message::UserAuth, ty == 53, as_banner, into_banner);
        sub!(into_user_auth, Message::UserAuth, ty == 60, as_public_key_ok, into_public_key_ok);
    }
    if (90..128).contains(&ty) {
        sub!(into_channel, Message::Channel, ty == 90, as_open, into_open);
        sub!(into_channel, Message::Channel, ty == 91, as_open_confirmation, into_open_confirmation);
        sub!(into_channel, Message::Channel, ty == 94, as_data, into_data);
        sub!(into_channel, Message::Channel, ty == 97, as_close, into_close);
        sub!(into_channel, Message::Channel, ty == 98, as_request, into_request);
        sub!(into_channel, Message::Channel, ty == 99, as_success, into_success);
        sub!(into_channel, Message::Channel, ty == 100, as_failure, into_failure);
    }
    if ty == 5 || ty == 6 {
        let name = &bytes[5..];
        let text = std::str::from_utf8(name).ok();
        use nora_ssh_core::message::{ServiceAccept, ServiceRequest};
        let mut all = vec![];
        if ty == 5 {
            ensure!(<&[u8]>::from(parse()?.into_service_request().unwrap()) == name, "name of a service request");
            all.push(Message::from(ServiceRequest::from(name)));
            all.extend(text.map(|t| Message::from(ServiceRequest::from(t))));
        } else {
            ensure!(<&[u8]>::from(parse()?.into_service_accept().unwrap()) == name, "name of an accepted service");
            all.push(Message::from(ServiceAccept::from(name)));
            all.extend(text.map(|t| Message::from(ServiceAccept::from(t))));
        }
        for m in all {
            ensure!(ser(&m, bytes.len() + 64)? == bytes, "service made from a name serialises wrongly");
        }
    }
    Ok(())
}

pub fn check_roundtrip(m: &Msg) -> Result<Vec<u8>, String> {
    let want = wire::encode(m);
    let lib = build(m)?;
    let got = ser(&lib, want.len() + 64).map_err(|e| format!("{:?}: {}", m, e))?;
    ensure!(got == want, "{:?} serialises as\n {}\ninstead of\n {}", m, hex(&got), hex(&want));
    let back = Message::parse(&want).map_err(|e| format!("{:?}: {} is refused: {:?}", m, hex(&want), e))?;
    let back = extract(&back).map_err(|e| format!("{:?}: {}", m, e))?;
    ensure!(back == wire::canonical(m), "{:?} reads back as {:?}", m, back);
    check_accessors(&want).map_err(|e| format!("{:?}: {}", m, e))?;
    Ok(want)
}

pub fn check_session_roundtrip(ty: &[u8], f: &[F]) -> Result<Vec<u8>, String> {
    let m = Msg { ty: 0, f: f.to_vec() };
    let want = wire::session_encode(ty, f);
    let mut buf = vec![0xee; want.len() + 16];
    let (t, l) = session_build(ty, &m)
        .serialize(&mut buf)
        .ok_or_else(|| format!("{:?} does not serialise", ty))?;
    ensure!(t == ty, "session request {:?} is named {:?}", ty, t);
    ensure!(l <= buf.len() && buf[..l] == want[..], "session request {:?} {:?} serialises wrongly", ty, f);
    let back = SessionRequest::parse(ty, &want).map_err(|e| format!("{:?} {:?} is refused: {:?}", ty, f, e))?;
    let (t, g) = session_extract(&back)?;
    ensure!(t == ty && g == f, "session request {:?} {:?} reads back as {:?} {:?}", ty, f, t, g);
    Ok(want)
}

fn c01(ctx: &mut Ctx) -> CaseResult {
    if ctx.case == 0 {
        // Every reason, signal and flag at least once.
        for v in 0..40 {
            check_roundtrip(&Msg { ty: 92, f: vec![F::U(1), F::U(v), F::S(b"d".to_vec()), F::S(vec![])] })?;
        }
        for s in wire::SIGNALS {
            check_session_roundtrip(b"signal", &[F::S(s.to_vec())])?;
            for c in [false, true] {
                check_session_roundtrip(
                    b"exit-signal",
                    &[F::S(s.to_vec()), F::B(c), F::S(b"m".to_vec()), F::S(b"en".to_vec())],
                )?;
            }
        }
        // A byte of every value at every place of every field.
        let mut r = R::new(ctx.case);
        for ty in wire::TYPES {
            for _ in 0..20 {
                check_roundtrip(&wire::gen_msg_of(&mut r, *ty))?;
            }
        }
    }
    for _ in 0..sized(10, 4) {
        let mut m = wire::gen_msg(&mut ctx.r);
        if ctx.r.chance(1, 40) {
            // A large field
            let n = ctx.r.range(sized(20_000, 200), sized(70_000, 400));
            let big = ctx.r.bytes(n);
            let free: Vec<usize> = match m.ty {
                1 => vec![1, 2],
                2 | 5 | 6 | 30 => vec![0],
                31 => vec![0, 1, 2, 3, 4, 5, 6],
                50 => vec![0, 1],
                53 | 60 => vec![0, 1],
                90 => vec![0],
                91 => vec![4],
                94 => vec![1],
                95 => vec![2],
                98 => vec![1, 3],
                _ => vec![],
            };
            if !free.is_empty() {
                let i = *ctx.r.pick(&free);
                m.f[i] = F::S(big);
            }
        }
        let b = check_roundtrip(&m)?;
        ctx.count("messages", 1);
        ctx.count(&format!("type_{}", m.ty), 1);
        if m.ty == 31 {
            ctx.count("kex_replies", 1);
        }
        if b.len() > 1 {
            ctx.sig(&b);
        }
        ctx.sample(|| format!("{:?}", m));
    }
    for _ in 0..4 {
        let (ty, f) = wire::gen_session(&mut ctx.r);
        let b = check_session_roundtrip(&ty, &f)?;
        ctx.count("session_requests", 1);
        if !b.is_empty() {
            ctx.sig(&[&ty[..], &b].concat());
        }
    }
    Ok(())
}

/// Compare the parser with the reference. Returns whether it was accepted.
pub fn check_parse(b: &[u8]) -> Result<bool, String> {
    let want = wire::parse(b);
    // Without spare capacity, for the sanitizers.
    let own: Box<[u8]> = b.into();
    let got = match Message::parse(&own) {
        Ok(m) => Some(extract(&m).map_err(|e| format!("{}: {}", hex(b), e))?),
        Err(_) => None,
    };
    ensure!(
        got == want,
        "{} ({} bytes) parses as\n {:?}\ninstead of\n {:?}",
        hex(b),
        b.len(),
        got,
        want
    );
    Ok(want.is_some())
}

pub fn check_session_parse(ty: &[u8], b: &[u8]) -> Result<bool, String> {
    let want = wire::session_parse(ty, b);
    let (ty_own, own): (Box<[u8]>, Box<[u8]>) = (ty.into(), b.into());
    let got = match SessionRequest::parse(&ty_own, &own) {
        Ok(m) => {
            let (t, f) = session_extract(&m)?;
            ensure!(t == ty, "session request {:?} parses as {:?}", ty, t);
            Some(f)
        }
        Err(_) => None,
    };
    ensure!(got == want, "session request {:?} {} parses as\n {:?}\ninstead of\n {:?}", ty, hex(b), got, want);
    Ok(want.is_some())
}

pub fn check_name_list(b: &[u8]) -> CaseResult {
    let own: Box<[u8]> = b.into();
    let b = &own[..];
    match NameList::try_from(b) {
        Ok(l) => {
            ensure!(wire::names_ok(b), "name list {:?} is accepted", b);
            let mut n = Vec::new();
            for name in l.iter() {
                n.push(name.to_string());
                ensure!(n.len() <= b.len(), "name list {:?} iterates without end", b);
            }
            ensure!(n == wire::names_of(b), "name list {:?} iterates as {:?}", b, n);
            let back: &[u8] = l.into();
            ensure!(back == b, "name list {:?} changed", b);
            let back: &str = l.into();
            ensure!(valid(back) == b, "name list {:?} changed", b);
        }
        Err(_) => ensure!(!wire::names_ok(b), "name list {:?} is refused", b),
    }
    fn arrays<const N: usize>(b: &[u8]) -> CaseResult {
        if let Ok(a) = <&[u8; N]>::try_from(b) {
            let l: Result<NameList, _> = a.try_into();
            ensure!(l.is_ok() == wire::names_ok(b), "name list {:?} as an array", b);
            if let Ok(l) = l {
                ensure!(<&[u8]>::from(l) == b, "name list {:?} as an array", b);
            }
            let s: Result<AsciiStr, _> = a.try_into();
            ensure!(s.is_ok() == b.is_ascii(), "ASCII string {:?} as an array", b);
            if let Ok(s) = s {
                ensure!(<&[u8]>::from(s) == b, "ASCII string {:?} as an array", b);
            }
        }
        Ok(())
    }
    arrays::<0>(b)?;
    arrays::<1>(b)?;
    arrays::<2>(b)?;
    arrays::<3>(b)?;
    arrays::<5>(b)?;
    arrays::<8>(b)?;
    match AsciiStr::try_from(b) {
        Ok(s) => {
            let t: &str = s.into();
            ensure!(valid(t) == b, "ASCII string {:?}", b);
            let s: &[u8] = s.into();
            ensure!(b.is_ascii() && s == b, "ASCII string {:?}", b)
        }
        Err(_) => ensure!(!b.is_ascii(), "ASCII string {:?} is refused", b),
    }
    Ok(())
}

fn c02(ctx: &mut Ctx) -> CaseResult {
    let one = |ctx: &mut Ctx, b: &[u8]| -> CaseResult {
        let ok = check_parse(b)?;
        ctx.count(if ok { "accepted" } else { "rejected" }, 1);
        ctx.count("byte_strings", 1);
        if b.len() > 1 {
            ctx.sig(b);
        }
        Ok(())
    };
    if ctx.case == 0 {
        // All strings of up to two bytes.
        one(ctx, &[])?;
        for a in 0..=255u8 {
            one(ctx, &[a])?;
            for b in 0..=255u8 {
                one(ctx, &[a, b])?;
            }
        }
    }
    if ctx.case < 200 {
        // Every prefix, and surplus, of a message of every type.
        let ty = wire::TYPES[ctx.case as usize % wire::TYPES.len()];
        let m = wire::gen_msg_of(&mut ctx.r, ty);
        let b = wire::encode(&m);
        for i in 0..b.len().min(600) {
            one(ctx, &b[..i])?;
        }
        for n in 1..6 {
            let mut b = b.clone();
            b.extend(std::iter::repeat(0).take(n));
            one(ctx, &b)?;
        }
        for c in 0..=255u8 {
            // Every value of the last byte: flags.
            let mut b = b.clone();
            *b.last_mut().unwrap() = c;
            one(ctx, &b)?;
        }
        // Every value of every byte at the start of auth requests and booleans elsewhere.
        if b.len() < 400 {
            for i in 0..b.len() {
                for c in [0, 1, 2, 0x7f, 0x80, 0xff, b','] {
                    let mut b = b.clone();
                    b[i] = c;
                    one(ctx, &b)?;
                }
            }
        }
    }
    for _ in 0..sized(20, 8) {
        let m = wire::gen_msg(&mut ctx.r);
        let mut b = wire::encode(&m);
        match ctx.r.below(10) {
            0 => {}
            1 => {
                let n = ctx.r.below(60);
                b = ctx.r.bytes(n);
                if !b.is_empty() && ctx.r.chance(3, 4) {
                    b[0] = *ctx.r.pick(wire::TYPES);
                }
            }
            _ => wire::mutate(&mut ctx.r, &mut b),
        }
        one(ctx, &b)?;
        ctx.sample(|| format!("{} -> {:?}", hex(&b), wire::parse(&b).map(|m| m.ty)));
        // Fields alone
        let (got, want) = (parse_string(&b), {
            if b.len() < 4 {
                None
            } else {
                let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
                (b.len() - 4 >= n).then(|| (&b[4..4 + n], &b[4 + n..]))
            }
        });
        ensure!(got == want, "parse_string {}", hex(&b));
    }
    for _ in 0..8 {
        let (ty, f) = wire::gen_session(&mut ctx.r);
        let mut b = wire::session_encode(&ty, &f);
        let mut t = ty.clone();
        match ctx.r.below(8) {
            0 => {}
            1 => t = ctx.r.pick(wire::SESSION_TYPES).to_vec(),
            2 => {
                wire::mutate(&mut ctx.r, &mut t);
            }
            _ => wire::mutate(&mut ctx.r, &mut b),
        }
        let ok = check_session_parse(&t, &b)?;
        ctx.count(if ok { "session_accepted" } else { "session_rejected" }, 1);
        ctx.count("byte_strings", 1);
        ctx.sig(&[&t[..], b"|", &b].concat());
    }
    for _ in 0..8 {
        let mut b = wire::gen_names(&mut ctx.r);
        if ctx.r.chance(2, 3) {
            for _ in 0..ctx.r.range(1, 3) {
                match ctx.r.below(5) {
                    0 => b.insert(0, b','),
                    1 => b.push(b','),
                    2 => {
                        let i = ctx.r.below(b.len() + 1);
                        b.insert(i, b',')
                    }
                    3 => {
                        let i = ctx.r.below(b.len() + 1);
                        b.insert(i, ctx.r.u8())
                    }
                    _ => {
                        b.pop();
                    }
                }
            }
        }
        check_name_list(&b)?;
        ctx.count("name_lists", 1);
        ctx.sig(&b);
    }
    Ok(())
}

/// Serialise into a buffer of exactly `n` bytes and compare.
fn check_buffer(
    want: &[u8],
    n: usize,
    fill: &mut dyn FnMut(usize) -> Vec<u8>,
    f: &dyn Fn(&mut [u8]) -> Option<(usize, Option<usize>)>,
    what: &dyn Fn() -> String,
) -> CaseResult {
    let before = fill(n);
    let mut buf = before.clone();
    let got = f(&mut buf);
    ensure!(buf.len() == n, "harness");
    match got {
        None => ensure!(n < want.len(), "{} does not fit in {} bytes but needs {}", what(), n, want.len()),
        Some((len, rest)) => {
            ensure!(n >= want.len(), "{} needs {} bytes but was put in {}", what(), want.len(), n);
            ensure!(len == want.len(), "{} reports {} bytes instead of {}", what(), len, want.len());
            if let Some(rest) = rest {
                ensure!(rest == n - len, "{} leaves {} of {} bytes", what(), rest, n);
            }
            ensure!(buf[..len] == *want, "{} in {} bytes is {} instead of {}", what(), n, hex(&buf[..len]), hex(want));
            ensure!(buf[len..] == before[len..], "{} in {} bytes touches the rest of the buffer", what(), n);
        }
    }
    Ok(())
}

fn sizes(r: &mut R, want: usize) -> Vec<usize> {
    if small() {
        return vec![0, r.below(4), r.below(want + 1), want.saturating_sub(1), want, want + 1 + r.below(5)];
    }
    if want < 60 {
        (0..=want + 9).collect()
    } else {
        let mut v: Vec<usize> = (0..12).collect();
        v.extend(want.saturating_sub(10)..want + 6);
        v.extend((0..12).map(|_| r.below(want)));
        v.push(want + 1000);
        v
    }
}

fn c03(ctx: &mut Ctx) -> CaseResult {
    let mut fr = ctx.r.fork();
    let mut fill = move |n: usize| match fr.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => vec![0x01; n],
        _ => fr.bytes(n),
    };
    let account = |ctx: &mut Ctx, want: &[u8], n: usize| {
        ctx.count("serialisations", 1);
        ctx.count(if n >= want.len() { "fits" } else { "too_small" }, 1);
        let mut s = want.to_vec();
        s.extend_from_slice(&(n as u64).to_be_bytes());
        ctx.sig(&s);
    };
    for _ in 0..sized(4, 2) {
        let m = wire::gen_msg(&mut ctx.r);
        let want = wire::encode(&m);
        let lib = build(&m)?;
        for n in sizes(&mut ctx.r, want.len()) {
            check_buffer(
                &want,
                n,
                &mut fill,
                &|b| lib.serialize(b).map(|(a, b)| (a.len(), Some(b.len()))),
                &|| format!("{:?}", m),
            )?;
            match &lib {
                Message::Channel(c) => {
                    check_buffer(&want, n, &mut fill, &|b| c.serialize(b).map(|l| (l, None)), &|| format!("{:?}", m))?
                }
                Message::ServiceRequest(s) => {
                    check_buffer(&want[1..], n, &mut fill, &|b| s.serialize(b).map(|l| (l, None)), &|| {
                        format!("{:?}", m)
                    })?
                }
                Message::ServiceAccept(s) => {
                    check_buffer(&want[1..], n, &mut fill, &|b| s.serialize(b).map(|l| (l, None)), &|| {
                        format!("{:?}", m)
                    })?
                }
                _ => {}
            }
            account(ctx, &want, n);
        }
        ctx.sample(|| format!("{:?} needs {} bytes", m, want.len()));
    }
    for _ in 0..2 {
        let (ty, f) = wire::gen_session(&mut ctx.r);
        let want = wire::session_encode(&ty, &f);
        let m = Msg { ty: 0, f };
        let lib = session_build(&ty, &m);
        for n in sizes(&mut ctx.r, want.len()) {
            check_buffer(&want, n, &mut fill, &|b| lib.serialize(b).map(|(_, l)| (l, None)), &|| {
                format!("{:?} {:?}", String::from_utf8_lossy(&ty), m.f)
            })?;
            account(ctx, &want, n);
            ctx.count("session", 1);
        }
    }
    {
        let r = &mut ctx.r;
        let p: Vec<Vec<u8>> = (0..5).map(|_| wire::gen_bytes(r)).collect();
        let mut want = Vec::new();
        crypto::put_str(&mut want, &p[0]);
        want.push(50);
        crypto::put_str(&mut want, &p[1]);
        crypto::put_str(&mut want, &p[2]);
        crypto::put_str(&mut want, b"publickey");
        want.push(1);
        crypto::put_str(&mut want, &p[3]);
        crypto::put_str(&mut want, &p[4]);
        for n in sizes(&mut ctx.r, want.len()) {
            let check = |b: &mut [u8]| -> Option<(usize, Option<usize>)> {
                let ptr = b.as_ptr();
                format_sign_data(b, &p[0], &p[1], &p[2], &p[3], &p[4])
                    .map(|s| (if s.as_ptr() == ptr { s.len() } else { usize::MAX }, None))
            };
            check_buffer(&want, n, &mut fill, &check, &|| format!("signature data for {:?}", p))?;
            account(ctx, &want, n);
            ctx.count("sign_data", 1);
        }
    }
    Ok(())
}

pub const BLOCKS: &[(BlockSize, usize)] = &[
    (BlockSize::B8, 8),
    (BlockSize::B16, 16),
    (BlockSize::B32, 32),
    (BlockSize::B64, 64),
];

/// Frame a payload and check the result. Returns the packet.
pub fn check_frame(payload: &[u8], bs: (BlockSize, usize), incl: bool, constant: Option<u8>, r: &mut R) -> Result<Vec<u8>, String> {
    let extra = r.below(40);
    let mut buf = r.bytes(payload.len() + 5 + 64 + 64 + 8 + extra);
    let what = || format!("payload of {} bytes, block size {}, length included {}", payload.len(), bs.1, incl);
    entropy::set_constant(constant);
    let mut rng = SrvRng::from_seed([7; 32]);
    let avail = buf.len() - 5;
    let mut given = 0;
    let mut pkt = Packet::wrap(
        &mut buf,
        bs.0,
        incl,
        |b| {
            given = b.len();
            b[..payload.len()].copy_from_slice(payload);
            payload.len()
        },
        &mut rng,
    );
    entropy::set_constant(None);
    ensure!(given == avail, "{}: payload space {} of {}", what(), given, avail);
    let len = pkt.packet_len();
    let pad = pkt.padding_len();
    let raw = pkt.as_raw().to_vec();
    ensure!(raw.len() == len + 4, "{}: raw length {} for {}", what(), raw.len(), len);
    ensure!(raw[..4] == (len as u32).to_be_bytes(), "{}: length bytes", what());
    ensure!(pkt.packet_len_bytes() == &raw[..4], "{}: length bytes", what());
    ensure!(raw[4] as usize == pad, "{}: padding length byte", what());
    ensure!((4..=255).contains(&pad), "{}: {} bytes of padding", what(), pad);
    ensure!(len == 1 + payload.len() + pad, "{}: length {} with padding {}", what(), len, pad);
    ensure!((len + if incl { 4 } else { 0 }) % bs.1 == 0, "{}: length {} is not aligned", what(), len);
    ensure!(raw[5..5 + payload.len()] == *payload, "{}: payload differs", what());
    ensure!(pkt.payload_len() == payload.len(), "{}: payload length", what());
    ensure!(pkt.payload() == payload && pkt.payload_mut() == payload, "{}: payload differs", what());
    ensure!(pkt.packet_bytes() == &raw[4..] && pkt.packet_bytes_mut() == &raw[4..], "{}: packet bytes", what());
    ensure!(pkt.as_raw_mut() == &raw[..], "{}: raw", what());
    ensure!(pkt.packet_len_bytes_mut() == &raw[..4], "{}: length bytes", what());
    if let Some(c) = constant {
        ensure!(
            raw[5 + payload.len()..].iter().all(|b| *b == c),
            "{}: padding {} does not come from the random generator, which yields only {:02x}",
            what(),
            hex(&raw[5 + payload.len()..]),
            c
        );
    }
    let n = r.below(extra + 1).min(extra);
    let raw2 = pkt.into_raw(n);
    ensure!(raw2.len() == raw.len() + n && raw2[..raw.len()] == raw[..], "{}: into_raw({})", what(), n);
    // Read back
    for surplus in [0, r.below(50)] {
        let mut copy = raw.clone();
        copy.extend(r.bytes(surplus));
        let p = Packet::wrap_raw(&mut copy, incl, bs.0).map_err(|e| format!("{}: refused: {:?}", what(), e))?;
        ensure!(p.payload() == payload, "{}: reads back as {}", what(), hex(p.payload()));
        ensure!(p.into_payload() == payload, "{}: reads back differently", what());
    }
    Ok(raw)
}

/// Read bytes as a packet and compare with the definition. Returns whether it was accepted.
pub fn check_wrap_raw(b: &[u8], bs: (BlockSize, usize), incl: bool) -> Result<bool, String> {
    let want = if b.len() < 5 {
        None
    } else {
        let len = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as u64;
        let pad = b[4] as u64;
        let ok = (len + if incl { 4 } else { 0 }) % bs.1 as u64 == 0 && pad < len && len <= b.len() as u64 - 4;
        ok.then(|| (len as usize, pad as usize))
    };
    let mut copy = b.to_vec();
    match Packet::wrap_raw(&mut copy, incl, bs.0) {
        Ok(p) => {
            let (len, pad) = match want {
                Some(w) => w,
                None => return Err(format!("packet {} ({} bytes, block {}, length included {}) is accepted", hex(b), b.len(), bs.1, incl)),
            };
            let payload = &b[5..4 + len - pad];
            ensure!(p.payload() == payload, "packet {}: payload {}", hex(b), hex(p.payload()));
            ensure!(p.packet_len() == len && p.padding_len() == pad, "packet {}: lengths", hex(b));
            ensure!(p.payload_len() == payload.len(), "packet {}: payload length", hex(b));
            ensure!(p.as_raw() == &b[..4 + len], "packet {}: raw", hex(b));
            ensure!(p.packet_bytes() == &b[4..4 + len], "packet {}: bytes", hex(b));
            ensure!(p.into_payload() == payload, "packet {}: payload", hex(b));
            Ok(true)
        }
        Err(_) => {
            // Less than four bytes of padding may be refused.
            ensure!(
                want.map_or(true, |(_, pad)| pad < 4),
                "packet {} ({} bytes, block {}, length included {}) is refused",
                hex(b),
                b.len(),
                bs.1,
                incl
            );
            Ok(false)
        }
    }
}

fn c04(ctx: &mut Ctx) -> CaseResult {
    // All small lengths are covered by the case number.
    let lens = [ctx.case as usize % sized(700, 50), ctx.r.below(sized(300, 80)), if ctx.r.chance(1, 10) { ctx.r.below(sized(40000, 300)) } else { 3 }];
    for n in lens {
        let payload = ctx.r.bytes(n);
        for bs in BLOCKS {
            for incl in [false, true] {
                let c = match ctx.r.below(3) {
                    0 => None,
                    1 => Some(0xa5),
                    _ => Some(ctx.r.u8()),
                };
                let p = check_frame(&payload, *bs, incl, c, &mut ctx.r)?;
                ctx.count("framed", 1);
                ctx.count("packets", 1);
                ctx.sig(&p);
            }
        }
    }
    // Varying generator: two packets of the same payload have different padding.
    for _ in 0..30 {
        let n = match ctx.r.below(6) {
            0 => ctx.r.below(8),
            1 => ctx.r.below(400),
            _ => ctx.r.below(100),
        };
        let bs = *ctx.r.pick(BLOCKS);
        let incl = ctx.r.chance(1, 2);
        let mut b = ctx.r.bytes(n);
        if n >= 5 {
            // Mostly plausible lengths
            let len: u32 = match ctx.r.below(9) {
                0 => ctx.r.edge_u32(),
                1 => (n - 4) as u32,
                2 => (n - 4) as u32 + 1,
                3 => ((n - 4) / bs.1 * bs.1) as u32,
                4 => ((n - 4) / bs.1 * bs.1) as u32 - if incl { 4.min(((n - 4) / bs.1 * bs.1) as u32) } else { 0 },
                5 => (((n - 4) / bs.1 + 1) * bs.1) as u32 - if incl { 4 } else { 0 },
                6 => u32::MAX - ctx.r.below(70) as u32,
                7 => (ctx.r.below(n) / bs.1 * bs.1 + bs.1) as u32 - if incl { 4 } else { 0 },
                _ => ctx.r.below(n) as u32,
            };
            b[..4].copy_from_slice(&len.to_be_bytes());
            b[4] = match ctx.r.below(6) {
                0 => len as u8,
                1 => (len as u8).wrapping_sub(1),
                2 => (len as u8).wrapping_add(1),
                3 => ctx.r.u8(),
                _ => ctx.r.range(4, 20) as u8,
            };
        }
        let ok = check_wrap_raw(&b, bs, incl)?;
        ctx.count(if ok { "read_ok" } else { "read_refused" }, 1);
        ctx.count("packets", 1);
        ctx.sig(&b);
        ctx.sample(|| format!("{} block {} included {} -> {}", hex(&b), bs.1, incl, ok));
    }
    Ok(())
}

pub fn secret(r: &mut R) -> [u8; 32] {
    let mut s: [u8; 32] = r.bytes(32).try_into().unwrap();
    match r.below(6) {
        0 => s[0] |= 0x80,
        1 => s[0] &= 0x7f,
        2 => {
            let n = r.range(1, 5);
            s[..n].iter_mut().for_each(|c| *c = 0);
            if r.chance(1, 2) {
                s[n] |= 0x80;
            }
        }
        3 => {
            if r.chance(1, 4) {
                s = [0; 32];
            } else {
                s[..31].iter_mut().for_each(|c| *c = 0);
            }
        }
        _ => {}
    }
    s
}

pub struct Keys {
    pub secret: [u8; 32],
    pub hash: [u8; 32],
}

impl Keys {
    pub fn gen(r: &mut R) -> Self {
        Keys { secret: secret(r), hash: r.bytes(32).try_into().unwrap() }
    }
    pub fn cipher(&self, to_server: bool, seq: u64) -> ChaCha20Poly1305 {
        let m = KeyMaterial::<sha2::Sha256>::new(self.secret, self.hash);
        ChaCha20Poly1305::from_key_material(
            &m,
            if to_server { Direction::ClientToServer } else { Direction::ServerToClient },
            seq,
        )
    }
    pub fn key(&self, to_server: bool) -> [u8; 64] {
        crypto::kdf(&self.secret, &self.hash, if to_server { b'C' } else { b'D' }, 64).try_into().unwrap()
    }
}

fn start_seq(r: &mut R) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => 3,
        2 => r.below(1000) as u64,
        3 => (1 << 32) - 1 - r.below(4) as u64,
        4 => 255 - r.below(3) as u64,
        _ => r.u64() >> (r.below(63) + 1),
    }
}

/// A plaintext packet of the form length, body.
pub fn plain_packet(r: &mut R, max: usize) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 8,
        1 => 8 * r.range(1, 4),
        2 => r.below(max) / 8 * 8 + 8,
        _ => 8 * r.range(1, 20),
    };
    let mut p = (n as u32).to_be_bytes().to_vec();
    p.extend(r.bytes(n));
    p
}

fn c05(ctx: &mut Ctx) -> CaseResult {
    let k = Keys::gen(&mut ctx.r);
    for dir in [true, false] {
        let seq = start_seq(&mut ctx.r);
        let mut enc = k.cipher(dir, seq);
        let mut dec = k.cipher(dir, seq);
        ensure!(enc.tag_size() == 16, "tag size {}", enc.tag_size());
        let key = k.key(dir);
        for i in 0..ctx.r.range(1, sized(8, 2)) as u64 {
            let max = sized(if ctx.r.chance(1, 10) { 35000 } else { 600 }, 100);
            let p = plain_packet(&mut ctx.r, max);
            let want = crypto::seal(&key, seq + i, &p);
            let mut got = p.clone();
            got.extend(ctx.r.bytes(16));
            enc.encrypt(&mut got);
            ensure!(
                got == want,
                "packet {} from sequence number {} (to server {}) of {} bytes is encrypted as\n {}\ninstead of\n {}",
                i,
                seq,
                dir,
                p.len(),
                hex(&got),
                hex(&want)
            );
            let len = dec
                .decrypt_length(want[..4].try_into().unwrap())
                .map_err(|_| format!("length of packet {} from {} refused", i, seq))?;
            ensure!(len == p[..4], "packet {} from {}: length {:?}", i, seq, len);
            dec.decrypt_data(&mut got)
                .map_err(|_| format!("genuine packet {} from {} refused", i, seq))?;
            ensure!(got[4..p.len()] == p[4..], "packet {} from {} decrypts differently", i, seq);
            ctx.count("packets", 1);
            ctx.count("packets_decrypted", 1);
            ctx.count("bytes", p.len() as u64);
            ctx.sig(&want);
            ctx.sample(|| format!("sequence number {}, to server {}, {} bytes -> {}", seq + i, dir, p.len(), hex(&want)));
        }
        ensure!(k.key(true) != k.key(false), "harness: keys");
    }
    Ok(())
}

/// Core half of C06: the cipher refuses everything but the next genuine packet.
pub fn c06_core(ctx: &mut Ctx) -> CaseResult {
    let k = Keys::gen(&mut ctx.r);
    let dir = ctx.r.chance(1, 2);
    let seq = start_seq(&mut ctx.r);
    let n = ctx.r.range(1, sized(5, 2));
    let packets: Vec<Vec<u8>> = (0..n)
        .map(|i| {
            let most = if !small() && ctx.r.chance(1, 20) { 34_000 } else { sized(200, 40) };
            let p = plain_packet(&mut ctx.r, most);
            crypto::seal(&k.key(dir), seq + i as u64, &p)
        })
        .collect();
    let mut dec = k.cipher(dir, seq);
    let refuse = |ctx: &mut Ctx, dec: &mut ChaCha20Poly1305, bad: &[u8], what: String| -> CaseResult {
        let mut b = bad.to_vec();
        let _ = dec.decrypt_length(b[..4].try_into().unwrap());
        ensure!(dec.decrypt_data(&mut b).is_err(), "accepted: {}", what);
        ensure!(b[4..] == bad[4..], "body was modified although it was refused: {}", what);
        ctx.count("forgeries", 1);
        ctx.count("core_forgeries", 1);
        ctx.sig(bad);
        Ok(())
    };
    for i in 0..n {
        let good = &packets[i];
        let bits = good.len() * 8;
        let tries: Vec<usize> = if bits <= 48 * 8 && !small() { (0..bits).collect() } else { (0..sized(60, 3)).map(|_| ctx.r.below(bits)).collect() };
        for bit in tries {
            let mut b = good.clone();
            b[bit / 8] ^= 1 << (bit % 8);
            refuse(ctx, &mut dec, &b, format!("packet {} of {} bytes with bit {} flipped", i, good.len(), bit))?;
        }
        for _ in 0..sized(6, 2) {
            let mut b = good.clone();
            let l = b.len();
            let what = match ctx.r.below(8) {
                6 => {
                    let n = ctx.r.range(1, l - 20);
                    b[l - 16 - n..l - 16].iter_mut().for_each(|c| *c = !*c);
                    "altered end"
                }
                7 => {
                    let c = *ctx.r.pick(&[0u8, 0xff, 1, 0x80]);
                    b[l - 16..].fill(c);
                    "constant tag"
                }
                0 => {
                    let x = ctx.r.bytes(16);
                    b[l - 16..].copy_from_slice(&x);
                    "random tag"
                }
                1 => {
                    b[l - 16..].iter_mut().for_each(|c| *c = 0);
                    "zero tag"
                }
                2 if l > 28 => {
                    b.drain(4..12);
                    "shortened"
                }
                3 => {
                    let x = ctx.r.bytes(8);
                    b.splice(4..4, x);
                    "extended"
                }
                4 => {
                    let x = ctx.r.below(l - 16);
                    b.rotate_left(1 + x.min(3));
                    "rotated"
                }
                _ => {
                    b[4..l - 16].iter_mut().for_each(|c| *c = !*c);
                    "complemented"
                }
            };
            if b != *good {
                refuse(ctx, &mut dec, &b, format!("packet {} {}", i, what))?;
            }
        }
        for (j, other) in packets.iter().enumerate() {
            if j != i {
                refuse(ctx, &mut dec, other, format!("packet {} in place of packet {}", j, i))?;
            }
        }
        let p = plain_packet(&mut ctx.r, 100);
        for (what, b) in [
            ("key of the other direction", crypto::seal(&k.key(!dir), seq + i as u64, &p)),
            ("key of another session", crypto::seal(&Keys::gen(&mut ctx.r).key(dir), seq + i as u64, &p)),
            ("next sequence number", crypto::seal(&k.key(dir), seq + i as u64 + 1, &p)),
            ("previous sequence number", crypto::seal(&k.key(dir), (seq + i as u64).wrapping_sub(1), &p)),
            ("sequence number modulo 2^32", crypto::seal(&k.key(dir), (seq + i as u64) ^ (1 << 32), &p)),
        ] {
            refuse(ctx, &mut dec, &b, what.into())?;
        }
        // The genuine packet is still the next one.
        let mut b = good.clone();
        ensure!(dec.decrypt_data(&mut b).is_ok(), "genuine packet {} refused after forgeries", i);
        ctx.count("genuine_after_forgeries", 1);
    }
    Ok(())
}

fn c07(ctx: &mut Ctx) -> CaseResult {
    let k = Keys::gen(&mut ctx.r);
    if k.secret[0] == 0 {
        ctx.count("leading_zero", 1);
    }
    if k.secret[0] & 0x80 != 0 {
        ctx.count("top_bit", 1);
    }
    let m = KeyMaterial::<sha2::Sha256>::new(k.secret, k.hash);
    for letter in b'A'..=b'F' {
        let dir = || if (letter - b'A') % 2 == 0 { Direction::ClientToServer } else { Direction::ServerToClient };
        let mut prev: Vec<u8> = Vec::new();
        let max = ctx.r.range(1, sized(8, 3));
        for blocks in 1..=max {
            let mut out = vec![[ctx.r.u8(); 32]; blocks];
            let got = match letter {
                b'A' | b'B' => m.initial_iv(dir(), &mut out).to_vec(),
                b'C' | b'D' => m.encryption_key(dir(), &mut out).to_vec(),
                _ => m.integrity_key(dir(), &mut out).to_vec(),
            };
            let want = crypto::kdf(&k.secret, &k.hash, letter, 32 * blocks);
            ensure!(
                got == want,
                "secret {} hash {} letter {} {} bytes: {} instead of {}",
                hex(&k.secret),
                hex(&k.hash),
                letter as char,
                want.len(),
                hex(&got),
                hex(&want)
            );
            ensure!(out.concat() == want, "output buffer differs from the returned bytes");
            ensure!(got.starts_with(&prev), "more output changes earlier bytes");
            prev = got;
            ctx.count("derivations", 1);
            ctx.sig(&want);
        }
        ctx.sample(|| format!("secret {} letter {} -> {}", hex(&k.secret), letter as char, hex(&prev)));
    }
    Ok(())
}

/// Core half of C08: the exchange hash of any transcript.
pub fn c08_core(ctx: &mut Ctx) -> CaseResult {
    use nora_ssh_core::identifier::Identifier;
    use nora_ssh_core::message::key_exchange::ecdh;
    let r = &mut ctx.r;
    let mut ident = || {
        let n = *r.pick(&[0, 8, 20, 100, 252, 253]);
        r.bytes(n)
    };
    let (vc, vs) = (ident(), ident());
    let r = &mut ctx.r;
    let p: Vec<Vec<u8>> = (0..7).map(|_| wire::gen_bytes(r)).collect();
    let mut sec = secret(r).to_vec();
    if r.chance(1, 5) {
        let n = r.below(100);
        sec = r.bytes(n);
    }
    let mut ks = Vec::new();
    for s in &p[2..5] {
        crypto::put_str(&mut ks, s);
    }
    let mut want = Vec::new();
    for s in [&vc, &vs, &p[0], &p[1], &ks, &p[5], &p[6], &crypto::mpint_content(&sec)] {
        crypto::put_str(&mut want, s);
    }
    let want = crypto::sha256(&want);
    let extra = r.below(50);
    let mut buf = r.bytes(ks.len() + extra);
    let got = ecdh::KeyExchangeDigest::<sha2::Sha256>::default()
        .update(&Identifier::new(&vc).ok_or("identification refused")?)
        .update(&Identifier::new(&vs).ok_or("identification refused")?)
        .update(&p[0])
        .update(&p[1])
        .update(&mut buf, &ecdh::Key { name: &p[2], blob: ecdh::KeyBlob { identifier: &p[3], q: &p[4] } })
        .update(&p[5])
        .update(&p[6])
        .update(&sec);
    ensure!(got[..] == want, "exchange hash of {:?} {:?} {:?} secret {} is {} instead of {}", vc, vs, p, hex(&sec), hex(&got), hex(&want));
    ctx.count("exchange_hashes", 1);
    ctx.sig(&want);
    Ok(())
}
