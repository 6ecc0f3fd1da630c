//! Checks of the handshake, the protection of packets and authentication.

use crate::client::*;
use crate::crypto::{self, put_str};
use crate::entropy;
use crate::rng::R;
use crate::run::{CaseResult, Ctx};
use crate::sim::*;
use crate::wire::{self, F};
use crate::work::*;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

pub fn password(user: &[u8], pw: &[u8]) -> Vec<u8> {
    auth_req(user, b"ssh-connection", b"password", |v| {
        v.push(0);
        put_str(v, pw)
    })
}

fn msg(ty: u8, f: Vec<F>) -> Vec<u8> {
    wire::encode(&wire::Msg { ty, f })
}

pub fn open(local: u32) -> Vec<u8> {
    msg(90, vec![F::S(b"session".to_vec()), F::U(local), F::U(1 << 20), F::U(32768)])
}

pub fn exec(remote: u32, command: &[u8], want: bool) -> Vec<u8> {
    let mut d = Vec::new();
    put_str(&mut d, command);
    msg(98, vec![F::U(remote), F::S(b"exec".to_vec()), F::B(want), F::S(d)])
}

fn rough(r: &mut R, chance: usize) -> (PipeCfg, PipeCfg) {
    let f = |r: &mut R| if r.below(16) < chance { PipeCfg::random(r) } else { PipeCfg::smooth() };
    (f(r), f(r))
}

/// The server must end this connection by itself.
async fn must_end(c: &Conn, tags: &str, why: &str) {
    c.lock().expect_end = true;
    let why = format!("the server to end the connection: {}", why);
    c.wait::<()>(tags, &why, |_| None).await;
}

fn simple_script(r: &mut R) -> Script {
    Script {
        has: [true; 3],
        ops: vec![Op::Out(r.below(2000)), Op::ReadEof, Op::Out(10)],
        ops2: vec![],
        status: 7,
        cfg: [PipeCfg::smooth(), PipeCfg::smooth(), PipeCfg::smooth()],
        refuse: false,
        delay: 0,
        gate: None,
    }
}

// ---------------------------------------------------------------- C06

/// Some alteration of the stream of genuine packets `p`.
fn forge(r: &mut R, p: &[Vec<u8>], payloads: &[Vec<u8>], earlier: &[Vec<u8>], key: &[u8; 64]) -> (Vec<u8>, &'static str) {
    // Long packets are few, and forgeries of these matter as much.
    let i = if r.chance(1, 3) { (0..p.len()).max_by_key(|i| p[*i].len()).unwrap() } else { r.below(p.len()) };
    let mut v: Vec<Vec<u8>> = p.to_vec();
    let constant_tag = |r: &mut R, v: &mut Vec<u8>, k: usize| {
        let n = v.len();
        let b = *r.pick(&[0u8, 0, 0xff, 1, b' ']);
        v[n - k..].fill(b);
    };
    let what = match r.below(18) {
        14 | 15 => {
            // What would be inside, in the clear, below the genuine length.
            let n = v[i].len() - 20;
            let pad = n - 1 - payloads[i].len();
            let mut body = vec![pad as u8];
            body.extend_from_slice(&payloads[i]);
            body.resize(n, 0);
            v[i][4..4 + n].copy_from_slice(&body);
            if r.chance(3, 4) {
                constant_tag(r, &mut v[i], 16);
            }
            "body in the clear"
        }
        16 => {
            let mut f = frame(r, &payloads[i], true, 0);
            f.extend([0; 16]);
            constant_tag(r, &mut f, 16);
            v[i] = f;
            "packet in the clear"
        }
        17 => {
            let n = v[i].len();
            let k = r.range(1, n.saturating_sub(20).clamp(1, 600));
            v[i][n - 16 - k..n - 16].iter_mut().for_each(|b| *b = !*b);
            "altered end"
        }
        0 | 1 => {
            let b = r.below(v[i].len() * 8);
            v[i][b / 8] ^= 1 << (b % 8);
            "flipped bit"
        }
        2 => {
            let b = r.below(32);
            v[i][b / 8] ^= 1 << (b % 8);
            "flipped bit of the length"
        }
        3 => {
            let n = v[i].len();
            let b = r.below(128);
            v[i][n - 16 + b / 8] ^= 1 << (b % 8);
            "flipped bit of the tag"
        }
        4 => {
            let k = if r.chance(1, 2) { 16 } else { r.range(1, 16) };
            constant_tag(r, &mut v[i], k);
            "constant tag"
        }
        5 => {
            if let Some(e) = (!earlier.is_empty()).then(|| r.pick(earlier).clone()) {
                v.insert(i, e);
                "replayed packet"
            } else {
                let x = v[i].clone();
                v.insert(i, x);
                return (v.concat(), "duplicated packet");
            }
        }
        6 => {
            let x = v[i].clone();
            v.insert(i, x);
            return (v.concat(), "duplicated packet");
        }
        7 if p.len() > 1 => {
            let j = r.below(p.len() - 1);
            v.swap(j, j + 1);
            return (v.concat(), "swapped packets");
        }
        8 if p.len() > 1 => {
            let j = r.below(p.len() - 1);
            v.remove(j);
            return (v.concat(), "dropped packet");
        }
        9 => {
            let n = r.below(v[i].len());
            v[i].remove(n);
            "removed byte"
        }
        10 => {
            let n = r.below(v[i].len());
            let b = r.u8();
            v[i].insert(n, b);
            "inserted byte"
        }
        11 => {
            // Another key, otherwise right.
            let mut k = *key;
            let b = r.below(512);
            k[b / 8] ^= 1 << (b % 8);
            let f = frame(r, &password(b"evil", b"evil"), true, 0);
            v[i] = crypto::seal(&k, 5, &f);
            "packet under another key"
        }
        12 => {
            // Known plaintext: change it without knowing the key.
            let n = v[i].len();
            let k = r.below(n - 4 - 16) + 4;
            let m = r.range(1, 255) as u8;
            v[i][k] ^= m;
            "altered body"
        }
        _ => {
            let n = v[i].len();
            let k = r.range(1, 16);
            v[i].truncate(n - k);
            "shortened tag"
        }
    };
    (v.concat(), what)
}

pub fn c06(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 4 != 0 {
        return crate::core_checks::c06_core(ctx);
    }
    let mut r = ctx.r.fork();
    let mut sim = Sim::new(&mut r);
    let (up, down) = rough(&mut r, 8);
    let (c, mut rd) = sim.connect(&mut r, "victim", up, down);
    c.lock().record = Some(Vec::new());
    let witness = r.chance(1, 4);
    if witness {
        add_client(&mut sim, &mut r, &Knobs { sessions: (1, 2), out_max: 1000, in_max: 1000, ..Knobs::default() }, 1);
    }
    let hs = Hs::plain(&mut r);
    let (point, ident) = (host_point(sim.key), sim.ident);
    {
        let mut w = sim.world.s.lock().unwrap();
        for i in 0..20 {
            w.scripts.insert(format!("evil{}", i).into_bytes(), simple_script(&mut r));
        }
        let mut o = sim.owners.lock().unwrap();
        for i in 0..20 {
            o.insert(format!("evil{}", i).into_bytes(), b"mallory".to_vec());
        }
        w.auth = Box::new(|u, _, _| u != b"nobody");
    }
    // Which packets of the forged stream were genuine: users or commands that may be seen.
    let allowed: Arc<Mutex<Option<(usize, &'static str, bool)>>> = Default::default();
    let allowed2 = allowed.clone();
    let late = r.chance(2, 3);
    let owners = sim.owners.clone();
    let mut rr = r.fork();
    sim.spawn("victim", async move {
        let r = &mut rr;
        let Ok(s) = handshake(&c, &mut rd, &hs, &point, ident).await else {
            c.fail(ALL, "handshake failed".into());
            return;
        };
        let mut earlier;
        let size = |r: &mut R| match r.below(6) {
            0 => r.below(30_000),
            1 => r.below(2000),
            2 => *r.pick(&[255, 511, 1023, 2047, 4095, 8191, 16383, 32400]) + r.below(300),
            _ => r.below(40),
        };
        let n = r.range(1, 6);
        let mut remote = 0;
        let payloads: Vec<Vec<u8>> = if late {
            if login(&c, &mut rd, b"mallory").await.is_err() {
                c.fail(ALL, "login failed".into());
                return;
            }
            c.send(&open(3));
            match rd.recv_real().await.ok().and_then(|m| wire::parse(&m)) {
                Some(m) if m.ty == 91 => {
                    if let F::U(v) = m.f[1] {
                        remote = v;
                    }
                }
                _ => {
                    c.fail(ALL, "channel not confirmed".into());
                    return;
                }
            }
            earlier = Vec::new();
            // Every one is a visible action on its own channel.
            (0..n)
                .map(|i| {
                    if r.chance(1, 3) {
                        exec(remote, format!("evil{}", i).as_bytes(), r.chance(1, 2))
                    } else {
                        let mut x = format!("unknown-evil{}_", i).into_bytes();
                        x.resize(x.len() + size(r), b'x');
                        owners.lock().unwrap().insert(x.clone(), b"mallory".to_vec());
                        exec(remote, &x, r.chance(1, 2))
                    }
                })
                .collect()
        } else {
            c.send(&service_request(b"ssh-userauth"));
            if r.chance(1, 2) && rd.recv_real().await.is_err() {
                c.fail(ALL, "no service".into());
                return;
            }
            earlier = Vec::new();
            (0..n)
                .map(|i| {
                    let mut x = format!("evil{}_", i).into_bytes();
                    x.resize(x.len() + size(r), b'x');
                    password(if i + 1 == n { b"mallory" } else { b"nobody" }, &x)
                })
                .collect()
        };
        if let Some(rec) = c.lock().record.clone() {
            // Encrypted packets only.
            earlier.extend(rec.into_iter().skip(3));
        }
        let packets: Vec<Vec<u8>> = payloads.iter().map(|p| c.packet(p)).collect();
        let (mut bytes, what) = forge(r, &packets, &payloads, &earlier, &s.key_out);
        // Whatever length the server believes in, it gets it.
        for i in 0..3 {
            bytes.extend(c.packet(&if late { exec(remote, format!("evil1{}", i).as_bytes(), true) } else { password(b"mallory", format!("evil1{}", i).as_bytes()) }));
        }
        let exact = ["flipped bit of the tag", "constant tag", "altered body", "altered end", "body in the clear"].contains(&what);
        bytes.extend(r.bytes(if exact { 1000 } else { 300_000 }));
        // A byte that was removed may be followed by the same one: look at what is sent.
        let good = packets.concat();
        let same = bytes.iter().zip(&good).take_while(|(a, b)| a == b).count();
        let genuine = packets.iter().scan(0, |at, p| { *at += p.len(); Some(*at) }).take_while(|at| *at <= same).count();
        c.env.trace(|| format!("victim sends {} packets with a {} after {} genuine ones", n, what, genuine));
        *allowed2.lock().unwrap() = Some((genuine, what, late));
        c.raw(&bytes);
        c.env.spawn(collect(c.clone(), rd));
        must_end(&c, "C06", what).await;
        let s = c.lock();
        if let Some(End::Bad(t)) = &s.ended {
            let t = t.clone();
            drop(s);
            c.fail("C06,C14", format!("invalid packet from the server: {}", t));
        }
    });
    sim.settle("C06");
    let a = *allowed.lock().unwrap();
    if let Some((genuine, what, late)) = a {
        let w = sim.world.s.lock().unwrap();
        let ok: HashSet<Vec<u8>> = (0..genuine).map(|i| format!("evil{}", i).into_bytes()).collect();
        let mut n = 0;
        for e in &w.events {
            let x = match e {
                Ev::Spawn { command, .. } => command.clone(),
                Ev::Auth { auth: AuthRec::Password(p), .. } => p.clone(),
                _ => continue,
            };
            let x = x.strip_prefix(b"unknown-").map(|x| x.to_vec()).unwrap_or(x);
            if !x.starts_with(b"evil") {
                continue;
            }
            let x: Vec<u8> = x.split(|c| *c == b'_').next().unwrap().to_vec();
            n += 1;
            if !ok.contains(&x) {
                sim.board.fail("C06", format!("{} was acted upon although the stream was forged before it ({})", String::from_utf8_lossy(&x), what));
            }
        }
        ctx.count("forgeries", 1);
        ctx.count(if late { "live_forgeries_after_login" } else { "live_forgeries_before_login" }, 1);
        ctx.count(&format!("live: {}", what), 1);
        ctx.count("genuine_packets_before_forgery_seen", n);
    }
    sim.conclude(ctx, "C06")
}

// ---------------------------------------------------------------- C08

/// Client secrets that, with a server that takes its ephemeral key from a generator that always
/// yields 0x42, give shared secrets with two leading zero bytes.
const TWO_ZEROS: &[u64] = &[65821, 91176, 352803, 326373];

fn special_secret(n: u64) -> [u8; 32] {
    let mut s = [0x17; 32];
    s[1..9].copy_from_slice(&n.to_le_bytes());
    s
}

/// A client secret for which the shared secret starts with these bits, if the server takes its
/// ephemeral key from a generator that always yields 0x42. Nothing is lost if it does not.
fn grind(r: &mut R, f: impl Fn(&[u8; 32]) -> bool) -> [u8; 32] {
    let server = x25519_dalek::x25519([0x42; 32], x25519_dalek::X25519_BASEPOINT_BYTES);
    let mut n = r.u64() >> 8;
    for _ in 0..2000 {
        n += 1;
        if f(&x25519_dalek::x25519(special_secret(n), server)) {
            break;
        }
    }
    special_secret(n)
}

/// Log in with a signed request and compare what the application is given.
async fn public_key_login(c: &Conn, rd: &mut Rd, user: &[u8], r: &mut R) -> Result<(), ()> {
    c.send(&service_request(b"ssh-userauth"));
    rd.recv_real().await.map_err(|_| ())?;
    let alg = b"ssh-ed25519";
    let key = r.bytes(32);
    let sig = r.bytes(64);
    let kb = blob(alg, &key);
    let id = c.lock().session_id;
    let req = auth_req(user, b"ssh-connection", b"publickey", |v| {
        v.push(1);
        put_str(v, alg);
        put_str(v, &kb);
        put_str(v, &blob(alg, &sig));
    });
    c.send(&req);
    let m = rd.recv_real().await.map_err(|_| ())?;
    if m != [52] {
        c.fail("C08,C13", format!("instead of success: {}", describe(&m)));
        return Err(());
    }
    c.lock().success += 1;
    let want = sign_data(&id, user, b"ssh-connection", alg, &kb);
    let w = c.world.s.lock().unwrap();
    let ok = w.events.iter().any(|e| {
        matches!(e, Ev::Auth { user: u, auth: AuthRec::PublicKey { message, .. }, .. } if u == user && *message == want)
    });
    if !ok {
        c.fail("C08,C13", "the data to be signed does not start with the exchange hash as session identifier".into());
    }
    c.board.count("session_identifiers_compared", 1);
    Ok(())
}

pub fn c08(ctx: &mut Ctx) -> CaseResult {
    for _ in 0..5 {
        crate::core_checks::c08_core(ctx)?;
    }
    let mut r = ctx.r.fork();
    let constant = ctx.case % 4 == 0;
    if constant {
        entropy::set_constant(Some(0x42));
    }
    let mut sim = Sim::new(&mut r);
    if constant {
        sim.constant = Some(0x42);
    }
    let n = r.range(1, 4);
    for i in 0..n {
        let (up, down) = rough(&mut r, 5);
        let name = format!("client{}", i);
        let (c, mut rd) = sim.connect(&mut r, &name, up, down);
        let mut hs = Hs::random(&mut r);
        if constant {
            hs.secret = match r.below(5) {
                0 => special_secret(*r.pick(TWO_ZEROS)),
                1 => grind(&mut r, |k| k[0] == 0 && k[1] & 0x80 != 0),
                2 => grind(&mut r, |k| k[0] == 0 && k[1] & 0x80 == 0),
                3 => grind(&mut r, |k| k[0] == 0x80),
                _ => grind(&mut r, |k| k[0] == 0x7f),
            };
        }
        let (point, ident) = (host_point(sim.key), sim.ident);
        let mut rr = r.fork();
        sim.spawn(&name, async move {
            match handshake(&c, &mut rd, &hs, &point, ident).await {
                Err(s) => c.fail("C08,C09,C10", format!("the handshake of a client that behaves failed: {:?}", s)),
                Ok(s) => {
                    if s.secret[0] == 0 && s.secret[1] == 0 {
                        c.board.count("secret_with_two_leading_zeros", 1);
                    }
                    // The keys must work, in both directions.
                    let user = format!("user-{}", c.name).into_bytes();
                    let e = c.board.expect("C08", format!("{}: waits for answers", c.name));
                    if public_key_login(&c, &mut rd, &user, &mut rr).await.is_err() {
                        c.fail("C08", "login after the handshake failed".into());
                    }
                    drop(e);
                    let mut b = c.board.0.lock().unwrap();
                    let mut x = s.id.to_vec();
                    x.extend(&hs.ident);
                    b.sigs.push(x);
                }
            }
            c.abort();
        });
    }
    sim.settle("C08");
    sim.conclude(ctx, "C08")
}

// ---------------------------------------------------------------- C09

/// Points of small order on curve25519 or its twist, and other encodings of them.
const LOW_ORDER: &[[u8; 32]] = &[
    [0; 32],
    [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [
        0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d,
        0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00,
    ],
    [
        0x5f, 0x9c, 0x95, 0xbc, 0xa3, 0x50, 0x8c, 0x24, 0xb1, 0xd0, 0xb1, 0x55, 0x9c, 0x83, 0xef, 0x5b, 0x04, 0x44, 0x5c,
        0xc4, 0x58, 0x1c, 0x8e, 0x86, 0xd8, 0x22, 0x4e, 0xdd, 0xd0, 0x9f, 0x11, 0x57,
    ],
    [
        0xec, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f,
    ],
    [
        0xed, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f,
    ],
    [
        0xee, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f,
    ],
];

fn low_order(k: &[u8]) -> bool {
    let k: [u8; 32] = match k.try_into() {
        Ok(k) => k,
        Err(_) => return false,
    };
    x25519_dalek::x25519([0x77; 32], k) == [0; 32]
}

/// Whether a key exchange init is one the server can agree to.
fn acceptable(payload: &[u8]) -> bool {
    match wire::parse(payload) {
        Some(m) if m.ty == 20 => [(1, KEX), (2, HOSTKEY), (3, CIPHER), (4, CIPHER), (7, b"none"), (8, b"none")].iter().all(|(i, want)| {
            matches!(&m.f[*i], F::S(l) if wire::names_of(l).iter().any(|n| n.as_bytes() == *want))
        }),
        _ => false,
    }
}

/// A packet as the handshake has them, possibly wrongly framed.
fn plain(r: &mut R, payload: &[u8]) -> Vec<u8> {
    frame(r, payload, false, 0)
}

pub fn c09(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let mut sim = Sim::new(&mut r);
    let (up, down) = rough(&mut r, 5);
    let (c, mut rd) = sim.connect(&mut r, "client", up, down);
    let (point, ident) = (host_point(sim.key), sim.ident);
    if r.chance(1, 4) {
        // What must be accepted.
        let hs = Hs::random(&mut r);
        sim.spawn("client", async move {
            match handshake(&c, &mut rd, &hs, &point, ident).await {
                Ok(s) => {
                    c.board.count("accepted", 1);
                    if hs.guess.is_some() {
                        c.board.count("wrong_guesses_ignored", 1);
                    }
                    c.board.0.lock().unwrap().sigs.push(s.id.to_vec());
                    if login(&c, &mut rd, b"user").await.is_err() {
                        c.fail("C09,C08", "login failed".into());
                    }
                }
                Err(s) => c.fail("C09", format!("acceptable parameters were refused: {:?}; lists {:?}", s, hs.lists.iter().map(|l| String::from_utf8_lossy(l)).collect::<Vec<_>>())),
            }
            c.abort();
        });
        sim.settle("C09");
        return sim.conclude(ctx, "C09");
    }
    let mut hs = if r.chance(1, 2) { Hs::random(&mut r) } else { Hs::plain(&mut r) };
    hs.follows = false;
    hs.guess = None;
    if r.chance(1, 8) {
        return c09_new_keys(ctx, r, sim, c, rd, hs);
    }
    if r.chance(1, 8) {
        return c09_surplus(ctx, r, sim, c, rd, hs);
    }
    let mut kexinit = hs.kexinit();
    let mut init = vec![30];
    put_str(&mut init, &hs.public());
    let mut newkeys = vec![21];
    // How far the server may get: 0 not past the algorithms, 1 not past the key, 2 not into service.
    let stage;
    let mut raw: Option<(usize, Vec<u8>)> = None;
    let what: String = match r.below(12) {
        0..=3 => {
            // Something that is needed is not offered.
            let i = *r.pick(&[0usize, 1, 2, 3, 6, 7]);
            let missing: [&[u8]; 10] = [KEX, HOSTKEY, CIPHER, CIPHER, b"", b"", b"none", b"none", b"", b""];
            hs.lists[i] = loop {
                let l = match r.below(4) {
                    0 => b"".to_vec(),
                    1 => {
                        // Names that contain the right one.
                        let mut l = missing[i].to_vec();
                        match r.below(4) {
                            0 => l.push(b'x'),
                            1 => l.insert(0, b'x'),
                            2 => {
                                l.pop();
                            }
                            _ => l[0] ^= 0x20,
                        }
                        l
                    }
                    _ => around(&mut r, b""),
                };
                if !wire::names_of(&l).iter().any(|n| n.as_bytes() == missing[i]) {
                    break l;
                }
            };
            kexinit = hs.kexinit();
            stage = 0;
            format!("list {} without {:?}", i, String::from_utf8_lossy(missing[i]))
        }
        4 => {
            stage = 0;
            match r.below(5) {
                0 => {
                    kexinit = init.clone();
                    "key exchange before the algorithms".into()
                }
                1 => {
                    kexinit = vec![21];
                    "new keys before the algorithms".into()
                }
                2 => {
                    kexinit = service_request(b"ssh-userauth");
                    "service request before the algorithms".into()
                }
                3 => {
                    kexinit = loop {
                        let m = wire::encode(&wire::gen_msg(&mut r));
                        if m.len() < 30000 && !matches!(m[0], 1..=4) && !acceptable(&m) {
                            break m;
                        }
                    };
                    format!("message {} before the algorithms", kexinit[0])
                }
                _ => {
                    kexinit = vec![];
                    "empty packet".into()
                }
            }
        }
        5 => {
            stage = 0;
            loop {
                wire::mutate(&mut r, &mut kexinit);
                if !acceptable(&kexinit) && !matches!(kexinit.first(), Some(1..=4)) {
                    break;
                }
            }
            "damaged kexinit".into()
        }
        6 => {
            stage = 1;
            let n = *r.pick(&[0usize, 1, 16, 31, 33, 64, 65, 1000, 30000]);
            init = vec![30];
            put_str(&mut init, &r.bytes(n));
            format!("ephemeral key of {} bytes", n)
        }
        7 | 8 => {
            stage = 1;
            let mut k = *r.pick(LOW_ORDER);
            if r.chance(1, 2) {
                k[31] |= 0x80;
            }
            assert!(low_order(&k), "harness: low order point");
            init = vec![30];
            put_str(&mut init, &k);
            format!("low order point {:02x?}", k)
        }
        9 => {
            stage = 1;
            match r.below(4) {
                0 => {
                    init = kexinit.clone();
                    "second kexinit".into()
                }
                1 => {
                    init = vec![21];
                    "new keys instead of a key".into()
                }
                2 => {
                    loop {
                        wire::mutate(&mut r, &mut init);
                        let ok = match wire::parse(&init) {
                            Some(m) if m.ty == 30 => matches!(&m.f[0], F::S(k) if k.len() == 32 && !low_order(k)),
                            _ => false,
                        };
                        if !ok && !matches!(init.first(), Some(1..=4)) {
                            break;
                        }
                    }
                    "damaged key exchange".into()
                }
                _ => {
                    init = loop {
                        let m = wire::encode(&wire::gen_msg(&mut r));
                        if m.len() < 30000 && !matches!(m[0], 1..=4 | 30) {
                            break m;
                        }
                    };
                    format!("message {} instead of a key", init[0])
                }
            }
        }
        10 => {
            stage = 2;
            newkeys = match r.below(5) {
                0 => vec![],
                1 => vec![21, 0],
                2 => service_request(b"ssh-userauth"),
                3 => init.clone(),
                _ => loop {
                    let m = wire::encode(&wire::gen_msg(&mut r));
                    if m.len() < 30000 && !matches!(m[0], 1..=4 | 21) {
                        break m;
                    }
                },
            };
            format!("message {:?} instead of new keys", newkeys.first())
        }
        _ => {
            // Wrong framing.
            let st = r.below(3);
            stage = st;
            let p = [&kexinit, &init, &newkeys][st].clone();
            let mut f = plain(&mut r, &p);
            let kind = r.below(5);
            match kind {
                0 => {
                    let n = *r.pick(&[0u32, 1, 3, 7, u32::MAX, 1 << 31, 1 << 20, 100_000]);
                    f[..4].copy_from_slice(&n.to_be_bytes());
                }
                1 => {
                    // Not a multiple of the block size.
                    let n = u32::from_be_bytes(f[..4].try_into().unwrap());
                    f[..4].copy_from_slice(&(n + r.range(1, 7) as u32).to_be_bytes());
                    f.extend([0; 8]);
                }
                2 => f[4] = 255.min(f.len() - 5) as u8,
                3 => {
                    // More padding than packet
                    f = vec![0, 0, 0, 12, *r.pick(&[11u8, 12, 13, 200, 255])];
                    f.extend(r.bytes(11));
                }
                _ => {
                    let n = f.len();
                    f.truncate(r.range(0, n - 1));
                }
            }
            if kind == 2 && f.len() > 260 {
                // Shortens the payload.
            }
            raw = Some((st, f));
            format!("framing error {} at stage {}", kind, st)
        }
    };
    let truncated = what.starts_with("framing error 4");
    let pipeline = r.chance(1, 2);
    let mut rr = r.fork();
    let what2 = what.clone();
    sim.spawn("client", async move {
        let r = &mut rr;
        c.lock().expect_end = true;
        let mut line = hs.preamble.clone();
        line.extend_from_slice(&hs.ident);
        line.extend_from_slice(b"\r\n");
        c.raw(&line);
        let p = [kexinit, init, newkeys];
        let mut done = false;
        for i in 0..3 {
            if done {
                break;
            }
            match &raw {
                Some((st, f)) if *st == i => {
                    c.raw(f);
                    done = truncated;
                }
                _ => {
                    let f = plain(r, &p[i]);
                    c.raw(&f)
                }
            }
            if !pipeline {
                c.env.yields(r.below(30)).await;
            }
        }
        // Keep going as if nothing happened.
        if truncated {
            c.finish();
        } else {
            for m in [service_request(b"ssh-userauth"), password(b"evil", b"evil")] {
                let f = plain(r, &m);
                c.raw(&f);
            }
            let fill = r.bytes(300_000);
            c.raw(&fill);
        }
        let mut types = Vec::new();
        let e = c.board.expect("C09", format!("client: waits for the end of the connection: {}", what2));
        let end = match rd.line().await {
            Err(e) => e,
            Ok(_) => loop {
                match rd.recv().await {
                    Ok(m) => {
                        c.env.trace(|| format!("client <- {}", describe(&m)));
                        types.extend(m.first());
                        if types.len() == 3 {
                            // From here on everything is encrypted.
                            let mut n = 0;
                            let end = loop {
                                match rd.byte().await {
                                    Ok(_) => n += 1,
                                    Err(e) => break e,
                                }
                            };
                            if n > 0 {
                                c.fail("C09", format!("{} more bytes after new keys ({})", n, what2));
                            }
                            break end;
                        }
                    }
                    Err(e) => break e,
                }
            },
        };
        drop(e);
        if let End::Bad(t) = &end {
            c.fail("C09,C14", format!("invalid packet: {}", t));
        }
        types.retain(|t| !matches!(t, 1..=4));
        let allowed: &[u8] = if stage == 2 { &[20, 31, 21] } else { &[20] };
        if !allowed.starts_with(&types) {
            c.fail("C09", format!("the server sent {:?}: {}", types, what2));
        }
        c.board.count(["refused_algorithms", "refused_keys", "refused_new_keys"][stage], 1);
        c.board.count("refused", 1);
        c.board.0.lock().unwrap().sigs.push(p.concat());
        c.abort();
    });
    sim.settle("C09");
    if !sim.world.s.lock().unwrap().events.is_empty() {
        sim.board.fail("C09,C12", format!("the application was called although the handshake failed: {}", what));
    }
    sim.conclude(ctx, "C09")
}

/// Everything right but the new keys message, after which the client uses the keys.
fn c09_new_keys(ctx: &mut Ctx, mut r: R, mut sim: Sim, c: Conn, mut rd: Rd, mut hs: Hs) -> CaseResult {
    let bad = match r.below(6) {
        0 => vec![],
        1 => vec![21, 0],
        2 => service_request(b"ssh-userauth"),
        3 => hs.kexinit(),
        4 => {
            let mut v = vec![30];
            put_str(&mut v, &hs.public());
            v
        }
        _ => loop {
            let m = wire::encode(&wire::gen_msg(&mut r));
            if m.len() < 30000 && !matches!(m[0], 1..=4 | 21) {
                break m;
            }
        },
    };
    hs.newkeys = Some(bad.clone());
    let what = format!("message {:?} of {} bytes instead of new keys", bad.first(), bad.len());
    let what2 = what.clone();
    let (point, ident) = (host_point(sim.key), sim.ident);
    sim.spawn("client", async move {
        c.lock().expect_end = true;
        if handshake(&c, &mut rd, &hs, &point, ident).await.is_ok() {
            c.send(&service_request(b"ssh-userauth"));
            c.send(&password(b"user", b"evil"));
            let e = c.board.expect("C09", format!("client: waits for the end of the connection: {}", what2));
            if let Ok(m) = rd.recv_real().await {
                c.fail("C09", format!("the server continues with {} after {}", describe(&m), what2));
            }
            drop(e);
        }
        c.board.count("refused_new_keys", 1);
        c.board.count("refused", 1);
        c.board.0.lock().unwrap().sigs.push(bad);
        c.abort();
    });
    sim.settle("C09");
    if !sim.world.s.lock().unwrap().events.is_empty() {
        sim.board.fail("C09,C12", format!("the application was called although the handshake failed: {}", what));
    }
    sim.conclude(ctx, "C09")
}

/// More packets than the one that may be ignored.
fn c09_surplus(ctx: &mut Ctx, mut r: R, mut sim: Sim, c: Conn, mut rd: Rd, mut hs: Hs) -> CaseResult {
    let wrong = r.chance(2, 3);
    hs.lists[0] = KEX.to_vec();
    hs.lists[1] = HOSTKEY.to_vec();
    if wrong {
        let i = r.below(2);
        let other: &[u8] = if i == 0 { b"ecdh-sha2-nistp256" } else { b"ssh-ed25519" };
        hs.lists[i] = [other, &hs.lists[i]].join(&b',');
    }
    hs.follows = r.chance(2, 3);
    // How many packets before the real one are to be ignored.
    let ignored = usize::from(wrong && hs.follows);
    let surplus = ignored + r.range(1, 2);
    // None of them has a key the server can use.
    let packets: Vec<Vec<u8>> = (0..surplus)
        .map(|_| {
            let mut v = vec![*r.pick(&[30u8, 30, 34, 21, 20, 5])];
            let n = *r.pick(&[0usize, 5, 31, 33, 65, 200]);
            put_str(&mut v, &r.bytes(n));
            v
        })
        .collect();
    let what = format!("{} surplus packets of which {} may be ignored", surplus, ignored);
    let what2 = what.clone();
    let pipeline = r.chance(1, 2);
    let mut rr = r.fork();
    sim.spawn("client", async move {
        let r = &mut rr;
        c.lock().expect_end = true;
        let mut line = hs.preamble.clone();
        line.extend_from_slice(&hs.ident);
        line.extend_from_slice(b"\r\n");
        c.raw(&line);
        let mut init = vec![30];
        put_str(&mut init, &hs.public());
        let mut list = vec![hs.kexinit()];
        list.extend(packets.clone());
        list.push(init);
        for m in &list {
            let f = plain(r, m);
            c.raw(&f);
            if !pipeline {
                c.env.yields(r.below(30)).await;
            }
        }
        let e = c.board.expect("C09", format!("client: waits for the end of the connection: {}", what2));
        let mut types = Vec::<u8>::new();
        if rd.line().await.is_ok() {
            while let Ok(m) = rd.recv_real().await {
                types.extend(m.first());
                if types.len() > 1 {
                    c.fail("C09", format!("the server sent {:?}: {}", types, what2));
                    break;
                }
            }
        }
        drop(e);
        c.board.count("refused_surplus", 1);
        c.board.count("refused", 1);
        c.board.0.lock().unwrap().sigs.push(list.concat());
        c.abort();
    });
    sim.settle("C09");
    if !sim.world.s.lock().unwrap().events.is_empty() {
        sim.board.fail("C09,C12", format!("the application was called although the handshake failed: {}", what));
    }
    sim.conclude(ctx, "C09")
}

// ---------------------------------------------------------------- C10

pub fn c10(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let mut sim = Sim::new(&mut r);
    let (up, down) = rough(&mut r, 10);
    let (c, mut rd) = sim.connect(&mut r, "client", up, down);
    let (point, ident) = (host_point(sim.key), sim.ident);
    let mut hs = Hs::plain(&mut r);
    if r.chance(2, 3) {
        hs.preamble = gen_preamble(&mut r);
        if r.chance(1, 10) {
            for _ in 0..r.range(1, 40) {
                hs.preamble.extend(gen_preamble(&mut r));
            }
        }
        if r.chance(1, 80) {
            // There is no limit to what is skipped.
            let n = *r.pick(&[5000, 10_000, 70_000, 200_000]);
            if r.chance(1, 2) {
                while hs.preamble.len() < n / 10 {
                    hs.preamble.extend(gen_preamble(&mut r));
                }
            } else {
                let mut l = r.bytes(n);
                l.iter_mut().filter(|b| **b == b'\n').for_each(|b| *b = b' ');
                l[0] = b'x';
                hs.preamble.extend(l);
                hs.preamble.extend_from_slice(b"\r\n");
            }
            sim.board.count("long_preambles", 1);
        }
    }
    hs.ident = gen_ident(&mut r);
    if r.chance(1, 2) {
        sim.spawn("client", async move {
            match handshake(&c, &mut rd, &hs, &point, ident).await {
                Ok(_) => {
                    c.board.count("identifications_accepted", 1);
                    c.board.max("longest_accepted_line", hs.ident.len() as u64 + 2);
                    if hs.ident.len() == 253 {
                        c.board.count("lines_of_255_bytes", 1);
                    }
                    if !hs.preamble.is_empty() {
                        c.board.count("preambles_skipped", 1);
                    }
                    let mut x = hs.preamble.clone();
                    x.extend(&hs.ident);
                    c.board.0.lock().unwrap().sigs.push(x);
                }
                Err(s) => c.fail(
                    "C10",
                    format!(
                        "refused: preamble {:?}, identification {:?} ({} bytes): {:?}",
                        String::from_utf8_lossy(&hs.preamble),
                        String::from_utf8_lossy(&hs.ident),
                        hs.ident.len(),
                        s
                    ),
                ),
            }
            c.abort();
        });
        sim.settle("C10");
        return sim.conclude(ctx, "C10");
    }
    let line: Vec<u8> = match r.below(3) {
        0 => {
            let v = *r.pick(&[
                &b"SSH-1.5-OpenSSH_1.2"[..], b"SSH-1.99-x", b"SSH-2.1-x", b"SSH-2-x", b"SSH-2.0", b"SSH-3.0-x", b"SSH-20-x", b"SSH-2.00-x",
                b"SSH--2.0-x", b"SSH-", b"SSH-2.0 x", b"SSH-2,0-x", b"SSH-12.0-", b"SSH-2.0_x-y",
            ]);
            let mut v = v.to_vec();
            if r.chance(1, 2) && v.len() > 8 {
                let n = r.below(200);
                v.extend((0..n).map(|_| r.range(32, 126) as u8));
            }
            v
        }
        _ => {
            // Too long
            let n = match r.below(3) {
                0 => 254,
                1 => r.range(254, 300),
                _ => r.range(254, 70_000),
            };
            let mut v = b"SSH-2.0-".to_vec();
            let cr = r.chance(1, 4);
            while v.len() < n {
                v.push(if cr { b'\r' } else { r.range(32, 126) as u8 });
            }
            v
        }
    };
    sim.spawn("client", async move {
        c.lock().expect_end = true;
        let mut first = hs.preamble.clone();
        first.extend(&line);
        first.extend_from_slice(b"\r\n");
        c.raw(&first);
        c.send(&hs.kexinit());
        let mut p = vec![30];
        put_str(&mut p, &hs.public());
        c.send(&p);
        let e = c.board.expect("C10", format!("client: waits for the end of the connection after {:?} ({} bytes)", String::from_utf8_lossy(&line[..line.len().min(40)]), line.len()));
        match rd.line().await {
            Ok(l) if l == ident => {}
            Ok(l) => c.fail("C10", format!("server identification {:?}", String::from_utf8_lossy(&l))),
            Err(_) => c.fail("C10", "no server identification".into()),
        }
        loop {
            match rd.recv().await {
                Ok(m) if m.first() == Some(&20) => {}
                Ok(m) => c.fail("C10", format!("the server goes on after {:?} ({} bytes): {}", String::from_utf8_lossy(&line[..line.len().min(40)]), line.len(), describe(&m))),
                Err(_) => break,
            }
        }
        drop(e);
        c.board.count("identifications_refused", 1);
        if line.len() > 253 {
            c.board.count("long_lines_refused", 1);
        } else {
            c.board.count("versions_refused", 1);
        }
        c.board.0.lock().unwrap().sigs.push(first);
        c.abort();
    });
    sim.settle("C10");
    sim.conclude(ctx, "C10")
}

// ---------------------------------------------------------------- C11

pub fn c11(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    if ctx.case % 2 == 0 {
        // Everything random is recognisable.
        let k = *r.pick(&[0x42u8, 0xa5, 0xff, 0x01]);
        entropy::set_constant(Some(k));
        let mut sim = Sim::new(&mut r);
        sim.constant = Some(k);
        for i in 0..r.range(1, 2) {
            add_client(&mut sim, &mut r, &Knobs { sessions: (1, 4), out_max: 3000, in_max: 3000, tight: 8, ..Knobs::default() }, i);
        }
        sim.settle("C11");
        ctx.count("constant_worlds", 1);
        return sim.conclude(ctx, "C11");
    }
    let mut sim = Sim::new(&mut r);
    if ctx.case % 8 == 1 {
        // No two pieces of padding are the same.
        sim.board.0.lock().unwrap().paddings = Some(Default::default());
        for i in 0..r.range(2, 4) {
            add_client(&mut sim, &mut r, &Knobs { sessions: (1, 4), out_max: 3000, in_max: 3000, tight: 8, ..Knobs::default() }, i);
        }
        sim.settle("C11");
        let all = sim.board.0.lock().unwrap().paddings.take().unwrap();
        let mut seen: HashMap<&[u8], (&str, usize)> = HashMap::new();
        for (name, v) in &all {
            for (i, w) in v.windows(8).enumerate() {
                if let Some((n, k)) = seen.insert(w, (name, i)) {
                    sim.board.fail("C11", format!("padding bytes {} of {} and {} of {} are the same: {:02x?}", k, n, i, name, w));
                    break;
                }
            }
            ctx.count("padding_compared", v.len() as u64);
        }
        return sim.conclude(ctx, "C11");
    }
    let hs = Hs::plain(&mut r);
    let n = r.range(2, 10);
    let got: Arc<Mutex<Vec<(String, Vec<u8>, Vec<u8>, Sess)>>> = Default::default();
    for i in 0..n {
        let (up, down) = rough(&mut r, 4);
        let name = format!("client{}", i);
        let (c, mut rd) = sim.connect(&mut r, &name, up, down);
        // Everything the client sends is the same.
        c.lock().extra_pad = 0;
        let (point, ident, hs, got) = (host_point(sim.key), sim.ident, hs.clone(), got.clone());
        let later = r.chance(1, 3);
        let mut rr = r.fork();
        sim.spawn(&name, async move {
            if later {
                c.env.yields(rr.below(300)).await;
            }
            match handshake(&c, &mut rd, &hs, &point, ident).await {
                Ok(s) => {
                    let cookie = match wire::parse(&s.server_kexinit) {
                        Some(m) => match &m.f[0] {
                            F::S(c) => c.clone(),
                            _ => vec![],
                        },
                        None => vec![],
                    };
                    got.lock().unwrap().push((c.name.clone(), cookie, s.server_eph.clone(), s));
                }
                Err(s) => c.fail("C08", format!("handshake failed: {:?}", s)),
            }
            c.abort();
        });
    }
    sim.settle("C11");
    let v = got.lock().unwrap();
    for (i, a) in v.iter().enumerate() {
        if a.1 == [0; 16] {
            sim.board.fail("C11", format!("{}: the cookie is all zero", a.0));
        }
        for b in &v[..i] {
            for (what, same) in [
                ("cookie", a.1 == b.1),
                ("ephemeral key", a.2 == b.2),
                ("session identifier", a.3.id == b.3.id),
                ("client to server keys", a.3.key_out == b.3.key_out),
                ("server to client keys", a.3.key_in == b.3.key_in),
                ("shared secret", a.3.secret == b.3.secret),
            ] {
                if same {
                    sim.board.fail("C11", format!("{} and {} have the same {}", b.0, a.0, what));
                }
            }
            ctx.count("pairs_compared", 1);
        }
        let mut x = a.1.clone();
        x.extend(&a.2);
        ctx.sig(&x);
    }
    drop(v);
    sim.conclude(ctx, "C11")
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug)]
enum Want {
    /// The application is asked this and refuses or accepts.
    Auth { user: Vec<u8>, service: Vec<u8>, auth: AuthRec, ok: bool },
    Query { user: Vec<u8>, service: Vec<u8>, algorithm: Vec<u8>, key: Vec<u8>, ok: bool },
    /// It is not asked.
    Nothing,
}

struct Attempt {
    payload: Vec<u8>,
    want: Want,
    /// Expected answer.
    reply: Vec<u8>,
    what: &'static str,
}

fn failure(m: &[u8]) -> bool {
    matches!(wire::parse(m), Some(m) if m.ty == 51 && matches!(m.f[1], F::B(false)))
}

/// Marks credentials the application accepts.
const GOOD: &[u8] = b"good";

fn has(v: &[u8], x: &[u8]) -> bool {
    v.windows(x.len()).any(|w| w == x)
}

/// Marks users, services and algorithms for which it accepts none.
const BARRED: &[u8] = b"barred";

fn barred(v: &[&[u8]]) -> bool {
    v.iter().any(|v| has(v, BARRED))
}

fn app(w: &World) {
    let mut w = w.s.lock().unwrap();
    w.auth = Box::new(|user, service, a| {
        !barred(&[user, service])
            && match a {
                AuthRec::None => has(user, GOOD),
                AuthRec::Password(p) => has(p, GOOD),
                AuthRec::PublicKey { key, algorithm, .. } => has(key, GOOD) && !barred(&[algorithm]),
                AuthRec::Unknown => false,
            }
    });
    w.query = Box::new(|user, service, alg, key| has(key, GOOD) && !barred(&[user, service, alg]));
}

fn query(user: Vec<u8>, service: Vec<u8>, alg: Vec<u8>, key: Vec<u8>) -> Attempt {
    let yes = has(&key, GOOD) && !barred(&[&user, &service, &alg]);
    let kb = blob(&alg, &key);
    let mut reply = vec![if yes { 60 } else { 51 }];
    if yes {
        put_str(&mut reply, &alg);
        put_str(&mut reply, &kb);
    }
    Attempt {
        payload: auth_req(&user, &service, b"publickey", |v| {
            v.push(0);
            put_str(v, &alg);
            put_str(v, &kb);
        }),
        want: Want::Query { user, service, algorithm: alg, key, ok: yes },
        reply,
        what: "key query",
    }
}

/// An earlier request again, with something else about it: what was decided about it
/// does not hold for this one.
fn variation(r: &mut R, id: &[u8; 32], of: &Want, other: Vec<u8>) -> Option<Attempt> {
    let mut bar = |v: &[u8]| {
        if has(v, BARRED) {
            v[..v.windows(6).position(|w| w == BARRED).unwrap()].to_vec()
        } else {
            [v, BARRED].concat()
        }
    };
    Some(match of {
        Want::Query { user, service, algorithm, key, .. } => {
            let (mut user, mut service, mut algorithm, mut key) = (user.clone(), service.clone(), algorithm.clone(), key.clone());
            match r.below(6) {
                0 => user = bar(&user),
                1 => service = bar(&service),
                2 => algorithm = bar(&algorithm),
                3 => key.extend_from_slice(GOOD),
                4 => user = bar(&other),
                _ => user = other,
            }
            query(user, service, algorithm, key)
        }
        Want::Auth { user, service, auth: AuthRec::Password(p), .. } => {
            // Accepted, if it was not for the user or service.
            let (mut user, mut service) = (user.clone(), service.clone());
            match r.below(3) {
                0 => service = [&service, BARRED].concat(),
                1 => user = [&other, BARRED].concat(),
                _ => user = [&user, BARRED].concat(),
            }
            let p = if r.chance(1, 2) { [p, GOOD].concat() } else { p.clone() };
            Attempt {
                payload: auth_req(&user, &service, b"password", |v| {
                    v.push(0);
                    put_str(v, &p)
                }),
                want: Want::Auth { user, service, auth: AuthRec::Password(p), ok: false },
                reply: vec![51],
                what: "password, barred",
            }
        }
        Want::Auth { user, service, auth: AuthRec::PublicKey { algorithm, key, signature, .. }, .. } => {
            let (mut user, mut service, mut algorithm) = (user.clone(), service.clone(), algorithm.clone());
            match r.below(4) {
                0 => service = [&service, BARRED].concat(),
                1 => user = [&other, BARRED].concat(),
                2 => algorithm = [&algorithm, BARRED].concat(),
                _ => user = [&user, BARRED].concat(),
            }
            let key = if r.chance(1, 2) { [key, GOOD].concat() } else { key.clone() };
            let kb = blob(&algorithm, &key);
            let message = sign_data(id, &user, &service, &algorithm, &kb);
            Attempt {
                payload: auth_req(&user, &service, b"publickey", |v| {
                    v.push(1);
                    put_str(v, &algorithm);
                    put_str(v, &kb);
                    put_str(v, &blob(&algorithm, signature));
                }),
                want: Want::Auth {
                    user,
                    service,
                    auth: AuthRec::PublicKey { algorithm, key, signature: signature.clone(), message },
                    ok: false,
                },
                reply: vec![51],
                what: "publickey, barred",
            }
        }
        _ => return None,
    })
}

fn attempt(r: &mut R, id: &[u8; 32], user: Vec<u8>, ok: bool, big: bool) -> Attempt {
    let service: Vec<u8> = if ok || r.chance(3, 4) {
        b"ssh-connection".to_vec()
    } else {
        match r.below(5) {
            0 => vec![],
            1 => b"ssh-userauth".to_vec(),
            2 => {
                let n = if big { r.below(3000) } else { r.below(40) };
                r.bytes(n)
            }
            3 => around(r, b"ssh-connection"),
            _ => b"other-service".to_vec(),
        }
    };
    let blank = |n: usize, r: &mut R| {
        // Random, without the marker.
        let mut v = r.bytes(n);
        v.iter_mut().for_each(|b| {
            if *b == b'g' {
                *b = b'h'
            }
        });
        v
    };
    // Some requests come as close to the largest packet as they can.
    let huge = big && r.chance(1, 3);
    let room = 32768 - 200 - user.len() - service.len();
    let sz = |r: &mut R| {
        if huge {
            room - r.below(40)
        } else if big {
            r.below(9000)
        } else {
            r.below(80)
        }
    };
    let mark = |v: &mut Vec<u8>, r: &mut R| {
        let i = r.below(v.len() + 1);
        for (k, b) in GOOD.iter().enumerate() {
            v.insert(i + k, *b);
        }
    };
    loop {
        match r.below(if ok { 3 } else { 9 }) {
            0 => {
                let mut user = user.clone();
                if ok {
                    user.extend_from_slice(GOOD);
                }
                return Attempt {
                    payload: auth_req(&user, &service, b"none", |_| {}),
                    want: Want::Auth { user, service, auth: AuthRec::None, ok },
                    reply: vec![52],
                    what: "none",
                };
            }
            1 => {
                let n = sz(r);
                let mut p = blank(n, r);
                if ok {
                    mark(&mut p, r);
                }
                return Attempt {
                    payload: auth_req(&user, &service, b"password", |v| {
                        v.push(0);
                        put_str(v, &p)
                    }),
                    want: Want::Auth { user, service, auth: AuthRec::Password(p), ok },
                    reply: vec![52],
                    what: "password",
                };
            }
            2 => {
                let n = sz(r);
                let mut key = blank(n, r);
                if ok {
                    mark(&mut key, r);
                }
                let alg = gen_alg(r);
                let n = if huge { r.below(20) } else { sz(r) };
                let sig = r.bytes(n);
                let kb = blob(&alg, &key);
                let message = sign_data(id, &user, &service, &alg, &kb);
                return Attempt {
                    payload: auth_req(&user, &service, b"publickey", |v| {
                        v.push(1);
                        put_str(v, &alg);
                        put_str(v, &kb);
                        put_str(v, &blob(&alg, &sig));
                    }),
                    want: Want::Auth { user, service, auth: AuthRec::PublicKey { algorithm: alg, key, signature: sig, message }, ok },
                    reply: vec![52],
                    what: "publickey",
                };
            }
            3 => {
                // Changing the password is not supported.
                return Attempt {
                    payload: auth_req(&user, &service, b"password", |v| {
                        v.push(1);
                        put_str(v, GOOD);
                        put_str(v, GOOD)
                    }),
                    want: Want::Nothing,
                    reply: vec![51],
                    what: "password change",
                };
            }
            4 => {
                return Attempt {
                    payload: auth_req(&user, &service, b"hostbased", |v| {
                        for s in [&b"ssh-ed25519"[..], &blob(b"ssh-ed25519", GOOD), b"host", b"root", &blob(b"ssh-ed25519", GOOD)] {
                            put_str(v, s);
                        }
                    }),
                    want: Want::Nothing,
                    reply: vec![51],
                    what: "hostbased",
                };
            }
            5 => {
                let m = *r.pick(&[&b"keyboard-interactive"[..], b"gssapi-with-mic", b"", b"nonesuch", b"passwor", b"publickeyx"]);
                let n = r.below(30);
                let rest = if m == b"keyboard-interactive" { vec![0; 8] } else { r.bytes(n) };
                return Attempt {
                    payload: auth_req(&user, &service, m, |v| v.extend(&rest)),
                    want: Want::Nothing,
                    reply: vec![51],
                    what: "another method",
                };
            }
            6 | 7 => {
                let yes = r.chance(1, 2);
                let n = sz(r);
                let mut key = blank(n, r);
                if yes {
                    mark(&mut key, r);
                }
                let alg = gen_alg(r);
                return query(user, service, alg, key);
            }
            _ => return bad_key(r, user, service, big),
        }
    }
}

fn gen_alg(r: &mut R) -> Vec<u8> {
    match r.below(6) {
        0 => b"ssh-rsa".to_vec(),
        1 => b"ecdsa-sha2-nistp256".to_vec(),
        2 => {
            let n = r.below(40);
            r.bytes(n)
        }
        _ => b"ssh-ed25519".to_vec(),
    }
}

/// A signed request or a query the application must not see.
fn bad_key(r: &mut R, user: Vec<u8>, service: Vec<u8>, big: bool) -> Attempt {
    let n = if big { r.below(5000) } else { r.range(0, 64) };
    let alg = gen_alg(r);
    let mut key = r.bytes(n);
    key.extend_from_slice(GOOD);
    let n = r.range(1, 100);
    let mut kb = blob(&alg, &key);
    let mut sb = blob(&alg, &r.bytes(n));
    let other = || {
        let mut a = alg.clone();
        a.push(b'x');
        a
    };
    let mut shorter = alg.clone();
    shorter.pop();
    let mut case = alg.clone();
    if let Some(c) = case.first_mut() {
        *c ^= 0x20;
    }
    let mut only_sig = false;
    let what = match r.below(9) {
        0 => {
            kb = blob(&other(), &key);
            "key of another algorithm"
        }
        1 => {
            sb = blob(&other(), b"signature");
            only_sig = true;
            "signature of another algorithm"
        }
        2 => {
            let n = r.range(1, 9);
            kb.extend(r.bytes(n));
            "surplus bytes after the key"
        }
        3 => {
            let n = r.range(1, 9);
            sb.extend(r.bytes(n));
            only_sig = true;
            "surplus bytes after the signature"
        }
        4 => {
            let n = r.below(kb.len());
            kb.truncate(n);
            "truncated key"
        }
        5 => {
            let n = r.below(sb.len());
            sb.truncate(n);
            only_sig = true;
            "truncated signature"
        }
        6 => {
            kb = blob(&other(), &key);
            sb = blob(&other(), b"signature");
            "key and signature of another algorithm"
        }
        7 if case != alg => {
            sb = blob(&case, b"signature");
            only_sig = true;
            "signature of a similar algorithm"
        }
        _ if shorter != alg => {
            kb = blob(&shorter, &key);
            "key of a similar algorithm"
        }
        _ => {
            kb = vec![];
            "empty key"
        }
    };
    let query = !only_sig && r.chance(1, 3);
    Attempt {
        payload: auth_req(&user, &service, b"publickey", |v| {
            v.push(!query as u8);
            put_str(v, &alg);
            put_str(v, &kb);
            if !query {
                put_str(v, &sb);
            }
        }),
        want: Want::Nothing,
        reply: vec![51],
        what,
    }
}

/// Now and then messages that change nothing, at any time.
fn noise(c: &Conn, r: &mut R) {
    while r.chance(1, 6) {
        let n = match r.below(20) {
            0 => r.below(32000),
            1..=4 => r.below(1000),
            _ => r.below(20),
        };
        let m = if r.chance(1, 2) {
            msg(2, vec![F::S(r.bytes(n))])
        } else {
            msg(4, vec![F::B(r.chance(1, 2)), F::S(vec![b'd'; n]), F::S(b"en".to_vec())])
        };
        c.send(&m);
        c.board.count("messages_to_be_ignored", 1);
    }
}

/// Make attempts and judge the answers. Returns whether the client is logged in.
async fn attempts(c: &Conn, rd: &mut Rd, list: &[Attempt], r: &mut R, tags: &str) -> Result<bool, End> {
    for (i, a) in list.iter().enumerate() {
        noise(c, r);
        c.send(&a.payload);
        let e = c.board.expect(tags, format!("{}: waits for the answer to {} ({})", c.name, i, a.what));
        let m = rd.recv_real().await?;
        drop(e);
        let ok = match a.reply[0] {
            52 if matches!(a.want, Want::Auth { ok: true, .. }) => m == [52],
            60 => m == a.reply,
            _ => failure(&m),
        };
        c.board.count("answers", 1);
        c.board.count(&format!("attempts: {}", a.what), 1);
        if !ok {
            c.fail(tags, format!("attempt {} ({}, {:?}): answered with {}", i, a.what, short(&a.want), describe(&m)));
            return Err(End::Bad("answer".into()));
        }
        if m == [52] {
            c.lock().success += 1;
            return Ok(true);
        }
    }
    Ok(false)
}

fn short(w: &Want) -> String {
    let mut s = format!("{:?}", w);
    s.truncate(s.char_indices().map(|x| x.0).take_while(|x| *x < 300).last().unwrap_or(0));
    s
}

/// Compare what the application was asked for these users with what should have been.
fn compare(sim: &Sim, tags: &str, name: &str, mine: &dyn Fn(&[u8]) -> bool, want: &[Want], complete: bool) {
    let w = sim.world.s.lock().unwrap();
    let got: Vec<&Ev> = w
        .events
        .iter()
        .filter(|e| match e {
            Ev::Auth { user, .. } | Ev::Query { user, .. } => mine(user),
            Ev::Spawn { .. } => false,
        })
        .collect();
    let want: Vec<&Want> = want.iter().filter(|w| !matches!(w, Want::Nothing)).collect();
    for (i, e) in got.iter().enumerate() {
        let same = match (want.get(i), e) {
            (Some(Want::Auth { user, service, auth, ok }), Ev::Auth { user: u, service: s, auth: a, token }) => {
                user == u && service == s && auth == a && *ok == token.is_some()
            }
            (
                Some(Want::Query { user, service, algorithm, key, ok }),
                Ev::Query { user: u, service: s, algorithm: a, key: k, ok: o },
            ) => user == u && service == s && algorithm == a && key == k && ok == o,
            _ => false,
        };
        if !same {
            let mut g = format!("{:?}", e);
            g.truncate(600);
            sim.board.fail(tags, format!("{}: the application was asked {} instead of {:?}", name, g, want.get(i).map(|w| short(w))));
            return;
        }
        sim.board.count("callbacks_compared", 1);
        if let Ev::Auth { auth: AuthRec::PublicKey { .. }, .. } = e {
            sim.board.count("signed_requests_compared", 1);
        }
        if let Ev::Query { .. } = e {
            sim.board.count("queries_compared", 1);
        }
    }
    if complete && got.len() != want.len() {
        sim.board.fail(tags, format!("{}: the application was asked {} times instead of {}", name, got.len(), want.len()));
    }
}

fn auth_world(ctx: &mut Ctx, id: &'static str, big: bool, premature: usize) -> CaseResult {
    let mut r = ctx.r.fork();
    let mut sim = Sim::new(&mut r);
    app(&sim.world);
    let n = r.range(1, 4);
    let plan: Arc<Mutex<HashMap<usize, (Vec<Want>, bool)>>> = Default::default();
    for i in 0..n {
        let (up, down) = {
            let (mut a, mut b) = rough(&mut r, 6);
            if big {
                a.rchunk = a.rchunk.max(100);
                a.wchunk = a.wchunk.max(100);
                a.cap = a.cap.max(100);
                b.rchunk = b.rchunk.max(100);
                b.wchunk = b.wchunk.max(100);
                b.cap = b.cap.max(100);
            }
            (a, b)
        };
        let name = format!("client{}", i);
        let (c, mut rd) = sim.connect(&mut r, &name, up, down);
        let (point, ident) = (host_point(sim.key), sim.ident);
        let hs = Hs::plain(&mut r);
        let bad = r.below(16) < premature;
        let login = r.chance(3, 4);
        let long = !big && r.chance(1, 60);
        let cmd = format!("cmd-{}", i).into_bytes();
        sim.world.s.lock().unwrap().scripts.insert(cmd.clone(), simple_script(&mut r));
        let (plan, owners) = (plan.clone(), sim.owners.clone());
        let mut rr = r.fork();
        sim.spawn(&name, async move {
            let r = &mut rr;
            let Ok(s) = handshake(&c, &mut rd, &hs, &point, ident).await else {
                c.fail("C08", "handshake failed".into());
                c.abort();
                return;
            };
            // Users of this connection
            let user = |r: &mut R| {
                let mut v = format!("c{}.", i).into_bytes();
                if n == 1 && r.chance(1, 4) {
                    // Nobody else's.
                    v.clear();
                    if r.chance(1, 2) {
                        return v;
                    }
                }
                let n = if big && r.chance(1, 4) { r.below(8000) } else { r.below(12) };
                v.extend(r.bytes(n).iter().map(|b| if *b == b'g' { b'h' } else { *b }));
                v
            };
            // Usually a few, now and then very many.
            let m = if long { r.range(250, 700) } else { r.range(0, 8) };
            let mut list: Vec<Attempt> = vec![];
            // Very many of all kinds or of one.
            let only = if long { r.below(6) } else { 9 };
            while list.len() < m {
                let u = user(r);
                let earlier = if r.chance(1, 4) && !list.is_empty() { Some(r.pick(&list).want.clone()) } else { None };
                match earlier.and_then(|w| variation(r, &s.id, &w, u.clone())) {
                    Some(a) => {
                        c.board.count("variations_of_earlier_requests", 1);
                        list.push(a)
                    }
                    None => list.push(attempt(r, &s.id, u, false, big)),
                }
                let last = &list.last().unwrap().want;
                let kind = match last {
                    Want::Query { .. } => 0,
                    Want::Auth { auth: AuthRec::Password(_), .. } => 1,
                    Want::Auth { auth: AuthRec::PublicKey { .. }, .. } => 2,
                    _ => 3,
                };
                if only < 4 && kind != only {
                    list.pop();
                }
            }
            if long {
                c.board.count("long_histories", 1);
            }
            if login {
                let u = user(r);
                list.push(attempt(r, &s.id, u, true, big));
            }
            list.retain(|a| a.payload.len() <= 32768);
            let logged = list.last().map_or(false, |a| matches!(a.want, Want::Auth { ok: true, .. }));
            let mut want: Vec<Want> = list.iter().map(|a| a.want.clone()).collect();
            if let Some(Want::Auth { user, .. }) = want.last() {
                owners.lock().unwrap().insert(cmd.clone(), user.clone());
            }
            for a in &list {
                c.board.0.lock().unwrap().sigs.push(a.payload.clone());
            }
            if bad {
                // Things that need a login, before it.
                c.lock().expect_end = true;
                let at = r.below(list.len() + 2);
                plan.lock().unwrap().insert(i, (want, false));
                if at > 0 {
                    c.send(&service_request(b"ssh-userauth"));
                }
                for (k, a) in list.iter().enumerate() {
                    if k + 1 == at || at == 0 {
                        for _ in 0..r.range(1, 3) {
                            let m = match r.below(8) {
                                0 => exec(0, b"evil", true),
                                1 => msg(94, vec![F::U(0), F::S(b"data".to_vec())]),
                                2 => vec![52],
                                3 => service_request(b"ssh-connection"),
                                4 => msg(98, vec![F::U(0), F::S(b"shell".to_vec()), F::B(true), F::S(vec![])]),
                                5 => vec![21],
                                _ => open(0),
                            };
                            c.send(&m);
                        }
                    }
                    if matches!(a.want, Want::Auth { ok: true, .. }) {
                        // Nobody is to be logged in here.
                        break;
                    }
                    c.send(&a.payload);
                }
                if at == list.len() + 1 || list.len() <= 1 {
                    c.send(&open(1));
                    c.send(&exec(0, b"evil", true));
                }
                c.finish();
                let e = c.board.expect(id, format!("{}: waits for the end", c.name));
                loop {
                    match rd.recv_real().await {
                        Ok(m) => match m[0] {
                            6 | 51 | 60 | 3 | 1 => {}
                            _ => c.fail("C12", format!("before a login: {}", describe(&m))),
                        },
                        Err(_) => break,
                    }
                }
                drop(e);
                c.board.count("premature_clients", 1);
                c.abort();
                return;
            }
            noise(&c, r);
            c.send(&service_request(b"ssh-userauth"));
            let e = c.board.expect("C12", format!("{}: waits for service accept", c.name));
            let pipeline = r.chance(1, 2);
            let got = if pipeline {
                // Everything at once.
                None
            } else {
                Some(rd.recv_real().await)
            };
            drop(e);
            let check_accept = |m: &Result<Vec<u8>, End>| match m {
                Ok(m) if m[0] == 6 => true,
                m => {
                    c.fail("C12", format!("instead of service accept: {:?}", m.as_ref().map(|m| describe(m))));
                    false
                }
            };
            if let Some(m) = &got {
                if !check_accept(m) {
                    c.abort();
                    return;
                }
            }
            let res = if pipeline {
                for a in &list {
                    noise(&c, r);
                    c.send(&a.payload);
                }
                let m = rd.recv_real().await;
                if !check_accept(&m) {
                    c.abort();
                    return;
                }
                answers(&c, &mut rd, &list, id).await
            } else {
                attempts(&c, &mut rd, &list, r, id).await
            };
            match res {
                Err(End::Bad(_)) => {
                    c.abort();
                    return;
                }
                Err(e) => {
                    c.fail("C12,C13", format!("the connection ended: {:?}", e));
                    c.abort();
                    return;
                }
                Ok(l) => {
                    if l != logged {
                        c.fail("C12", format!("logged in: {}", l));
                    }
                }
            }
            if !logged {
                // Still usable: a last try.
                if r.chance(1, 2) {
                    let u = user(r);
                    let last = attempt(r, &s.id, u, true, false);
                    want.push(last.want.clone());
                    if let Want::Auth { user, .. } = &last.want {
                        owners.lock().unwrap().insert(cmd.clone(), user.clone());
                    }
                    c.board.count("late_logins", 1);
                    if !matches!(attempts(&c, &mut rd, &[last], r, id).await, Ok(true)) {
                        c.fail("C12", "the last try was not accepted".into());
                        c.abort();
                        return;
                    }
                } else {
                    plan.lock().unwrap().insert(i, (want, true));
                    c.abort();
                    return;
                }
            }
            plan.lock().unwrap().insert(i, (want, true));
            c.board.count("logins", 1);
            // Requests after the login are ignored, whatever they contain.
            if r.chance(1, 2) {
                for _ in 0..r.range(1, 3) {
                    let ok = r.chance(1, 2);
                    let u = user(r);
                    let a = attempt(r, &s.id, u, ok, false);
                    c.send(&a.payload);
                }
            }
            c.env.spawn(reader(c.clone(), rd));
            let p = Plan {
                local: r.below(4) as u32,
                window: 1 << 20,
                maxpkt: 32768,
                steps: vec![
                    Step::Start { command: Some(cmd.clone()), key: cmd.clone(), want: true },
                    Step::Data(b"input".to_vec()),
                    Step::Eof,
                ],
                below: 0,
                grant: (1, 1),
                lazy: 0,
                never: false,
                excess: false,
                full: false,
                late: vec![],
                late_yield: 0,
                open_ty: b"session".to_vec(),
            };
            session(c.clone(), p).await;
            if process(&c.world, &cmd).is_none() {
                c.fail("C12,C18", "the command of a client that logged in was not started".into());
            }
            c.abort();
        });
    }
    sim.settle(id);
    for i in 0..n {
        let pre = format!("c{}.", i).into_bytes();
        let p = plan.lock().unwrap().get(&i).cloned();
        if let Some((want, complete)) = p {
            compare(&sim, id, &format!("client{}", i), &|u| n == 1 || u.starts_with(&pre), &want, complete);
        }
    }
    if sim.world.s.lock().unwrap().events.iter().any(|e| matches!(e, Ev::Spawn { command, .. } if command == b"evil" || command.starts_with(b"shell:"))) {
        sim.board.fail("C12", "a command was started before a login".into());
    }
    sim.conclude(ctx, id)
}

/// The answers to attempts that were all sent.
async fn answers(c: &Conn, rd: &mut Rd, list: &[Attempt], tags: &str) -> Result<bool, End> {
    for (i, a) in list.iter().enumerate() {
        let e = c.board.expect(tags, format!("{}: waits for the answer to {} ({})", c.name, i, a.what));
        let m = rd.recv_real().await?;
        drop(e);
        let ok = match a.reply[0] {
            52 if matches!(a.want, Want::Auth { ok: true, .. }) => m == [52],
            60 => m == a.reply,
            _ => failure(&m),
        };
        c.board.count("answers", 1);
        c.board.count("pipelined_answers", 1);
        c.board.count(&format!("attempts: {}", a.what), 1);
        if !ok {
            c.fail(tags, format!("attempt {} ({}, {:?}): answered with {}", i, a.what, short(&a.want), describe(&m)));
            return Err(End::Bad("answer".into()));
        }
        if m == [52] {
            c.lock().success += 1;
            return Ok(true);
        }
    }
    Ok(false)
}

pub fn c12(ctx: &mut Ctx) -> CaseResult {
    auth_world(ctx, "C12", false, 5)
}

pub fn c13(ctx: &mut Ctx) -> CaseResult {
    let big = ctx.case % 3 == 0;
    auth_world(ctx, "C13", big, 0)
}
