//! Clients that attack, fail or stall next to clients that behave.

use crate::attack::{exec, open, password};
use crate::client::*;
use crate::crypto::put_str;
use crate::rng::R;
use crate::run::{CaseResult, Ctx};
use crate::sim::*;
use crate::wire::{self, F};
use crate::work::*;

pub fn msg(ty: u8, f: Vec<F>) -> Vec<u8> {
    wire::encode(&wire::Msg { ty, f })
}

// ---------------------------------------------------------------- C19

fn garbage(r: &mut R) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.below(20),
        1 => r.below(1000),
        2 => r.below(8000),
        _ => r.below(90_000),
    };
    match r.below(5) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|_| *r.pick(&[b'S', b'H', b'-', b'2', b'.', b'0', b'\r', b'\n'])).collect(),
        3 => {
            // Plausible lengths
            let mut v = Vec::new();
            while v.len() < n {
                v.extend((r.edge_u32() % 70000).to_be_bytes());
                let k = r.below(40);
                v.extend(r.bytes(k));
            }
            v
        }
        _ => r.bytes(n),
    }
}

/// A packet whose length is near the size of a buffer that may be behind it, sometimes cut.
fn long_frame(r: &mut R, c: &Conn, enc: bool) -> Vec<u8> {
    let near = *r.pick(&[35000usize, 35000, 35000, 35000, 32768, 65536, 65536, 36000, 40000, 1 << 17]);
    let n = if r.chance(1, 5) { r.range(30_000, 80_000) } else { near + 24 - r.below(64) };
    let n = if r.chance(3, 4) { n / 8 * 8 + if enc { 0 } else { 4 } } else { n };
    let mut f = (n as u32).to_be_bytes().to_vec();
    f.push(r.range(4, 255) as u8);
    let pad = f[4] as usize;
    // An ignored message fills the packet.
    f.push(2);
    f.extend(((n - pad - 6) as u32).to_be_bytes());
    f.resize(4 + n, b'x');
    c.board.count("packets_near_buffer_sizes", 1);
    f
}

/// A message for a server that is in the middle of a session.
fn gen_hostile(r: &mut R, remotes: &[u32]) -> Vec<u8> {
    let id = |r: &mut R| match r.below(6) {
        0 => r.edge_u32(),
        1 => r.below(300) as u32,
        _ if !remotes.is_empty() => *r.pick(remotes),
        _ => r.below(4) as u32,
    };
    let mut m = match r.below(16) {
        0 => wire::encode(&wire::gen_msg(r)),
        1 => {
            let ty = *r.pick(wire::TYPES);
            wire::encode(&wire::gen_msg_of(r, ty))
        }
        2 => {
            let (w, p) = (r.edge_u32(), r.edge_u32());
            msg(90, vec![F::S(b"session".to_vec()), F::U(r.edge_u32()), F::U(w), F::U(p)])
        }
        3 => open(r.edge_u32()),
        4 => {
            let n = r.below(6);
            exec(id(r), format!("hostile{}", n).as_bytes(), r.chance(1, 2))
        }
        5 => msg(98, vec![F::U(id(r)), F::S(b"shell".to_vec()), F::B(r.chance(1, 2)), F::S(vec![])]),
        6 => {
            let (ty, f) = wire::gen_session(r);
            let mut d = wire::session_encode(&ty, &f);
            d.truncate(30000);
            msg(98, vec![F::U(id(r)), F::S(ty), F::B(r.chance(1, 2)), F::S(d)])
        }
        7 | 8 => {
            let n = match r.below(4) {
                0 => 0,
                1 => 32768,
                2 => r.below(34900),
                _ => r.below(300),
            };
            msg(94, vec![F::U(id(r)), F::S(r.bytes(n))])
        }
        9 => {
            let n = r.below(3000);
            msg(95, vec![F::U(id(r)), F::U(r.edge_u32()), F::S(r.bytes(n))])
        }
        10 | 11 => msg(93, vec![F::U(id(r)), F::U(r.edge_u32())]),
        12 => msg(96, vec![F::U(id(r))]),
        13 => msg(97, vec![F::U(id(r))]),
        14 => wire::encode(&wire::gen_auth(r)),
        _ => msg(*r.pick(&[99, 100]), vec![F::U(id(r))]),
    };
    if r.chance(1, 6) {
        wire::mutate(r, &mut m);
    }
    m.truncate(if r.chance(1, 4) { 36_000 } else { 34_900 });
    m
}

async fn end_it(c: &Conn, r: &mut R) {
    match r.below(5) {
        0 => c.finish(),
        1 => c.abort(),
        2 => {
            c.drained().await;
            c.abort();
        }
        3 => {
            c.pause(true);
            c.env.yields(r.below(50)).await;
        }
        _ => {}
    }
}

pub async fn hostile(c: Conn, rd: Rd, rr: R, point: Vec<u8>, ident: &'static [u8]) {
    hostile_at(c, rd, rr, point, ident, None).await
}

/// `which`: the stage and kind of attack.
pub async fn hostile_at(c: Conn, mut rd: Rd, mut rr: R, point: Vec<u8>, ident: &'static [u8], which: Option<(usize, usize)>) {
    let r = &mut rr;
    c.lock().expect_end = true;
    c.lock().extra_pad = 0;
    let stage = which.map_or_else(|| r.below(8), |w| w.0);
    c.board.count(&format!("hostile at stage {}", stage), 1);
    let hs = Hs::random(r);
    if stage <= 2 {
        if stage > 0 {
            let mut l = hs.preamble.clone();
            l.extend(&hs.ident);
            if r.chance(9, 10) {
                l.extend_from_slice(b"\r\n");
            }
            c.raw(&l);
        }
        let mut init = vec![30];
        put_str(&mut init, &hs.public());
        let mut list = vec![hs.kexinit(), init, vec![21]];
        if stage == 2 {
            let i = r.below(3);
            match which.map_or_else(|| r.below(6), |w| w.1 % 6) {
                0 => wire::mutate(r, &mut list[i]),
                1 => list[i] = gen_hostile(r, &[]),
                2 => {
                    // Nothing in common.
                    let mut h = hs.clone();
                    let i = *r.pick(&[0, 1, 2, 3, 6, 7]);
                    h.lists[i] = r.pick(&[&b""[..], b"other", b"other,another", b"Curve25519-SHA256"]).to_vec();
                    list[0] = h.kexinit();
                }
                3 => {
                    let n = *r.pick(&[0, 1, 31, 33, 32, 32, 65]);
                    let mut l = vec![30];
                    put_str(&mut l, &vec![0; n]);
                    list[1] = l;
                }
                _ => {
                    list.remove(i);
                }
            }
            for m in list {
                let mut f = match r.below(12) {
                    0 | 1 => misframe(r, &m, false),
                    2 => long_frame(r, &c, false),
                    _ => frame(r, &m, false, 0),
                };
                if r.chance(1, 8) {
                    wire::mutate(r, &mut f);
                }
                c.raw(&f);
            }
        }
        let g = garbage(r);
        c.raw(&g);
        if r.chance(1, 2) {
            c.env.spawn(collect(c.clone(), rd));
            c.env.yields(r.below(30)).await;
            end_it(&c, r).await;
        } else {
            end_it(&c, r).await;
            // Never reads anything.
            c.env.yields(r.below(30)).await;
            drop(rd);
        }
        return;
    }
    if handshake(&c, &mut rd, &hs, &point, ident).await.is_err() {
        return;
    }
    c.board.count("hostile_handshakes", 1);
    if stage == 3 {
        // Garbage instead of encrypted packets.
        if r.chance(1, 2) {
            let f = long_frame(r, &c, true);
            c.send_framed(&f);
        }
        let g = garbage(r);
        c.raw(&g);
    } else if stage == 4 {
        if r.chance(3, 4) {
            c.send(&service_request(if r.chance(3, 4) { b"ssh-userauth" } else { b"ssh-connection" }));
        }
        for _ in 0..r.range(1, 12) {
            let mut m = match r.below(4) {
                0 => gen_hostile(r, &[]),
                1 => service_request(b"ssh-userauth"),
                _ => wire::encode(&wire::gen_auth(r)),
            };
            if r.chance(1, 4) {
                wire::mutate(r, &mut m);
            }
            m.truncate(34900);
            if r.chance(1, 20) {
                let f = long_frame(r, &c, true);
                c.send_framed(&f);
            } else if r.chance(1, 10) {
                let f = misframe(r, &m, true);
                c.send_framed(&f);
            } else {
                c.send(&m);
            }
        }
    } else {
        if login(&c, &mut rd, b"hostile").await.is_err() {
            return;
        }
        c.board.count("hostile_logins", 1);
        c.env.spawn(collect(c.clone(), rd));
        let mut remotes: Vec<u32> = Vec::new();
        for _ in 0..r.range(0, 4) {
            c.send(&open(r.below(4) as u32));
            if r.chance(1, 2) {
                // Learn the number of the channel.
                let n = remotes.len();
                c.wait("", "", |s| {
                    let v: Vec<u32> = s
                        .extra_msgs
                        .iter()
                        .filter(|m| m.first() == Some(&91) && m.len() >= 9)
                        .map(|m| u32::from_be_bytes([m[5], m[6], m[7], m[8]]))
                        .collect();
                    (v.len() > n).then(|| remotes = v)
                })
                .await;
            }
        }
        let n = match r.below(8) {
            0 => 200,
            _ => r.range(1, 30),
        };
        for _ in 0..n {
            let id = if remotes.is_empty() { r.below(3) as u32 } else { *r.pick(&remotes) };
            match r.below(12) {
                0 => {
                    let g = garbage(r);
                    c.raw(&g)
                }
                1 => {
                    // Far beyond the window.
                    for _ in 0..r.range(1, 80) {
                        c.send(&msg(94, vec![F::U(id), F::S(vec![7; 32768])]));
                        c.wait("", "", |s| (s.out_len() < 100_000 || s.out_dead).then_some(())).await;
                    }
                }
                2 => {
                    let k = r.below(6);
                    c.send(&exec(id, format!("hostile{}", k).as_bytes(), true));
                }
                3 => c.env.yields(r.below(40)).await,
                5 if r.chance(1, 6) => {
                    let f = long_frame(r, &c, true);
                    c.send_framed(&f);
                }
                4 if r.chance(1, 4) => {
                    let m = gen_hostile(r, &remotes);
                    let f = misframe(r, &m, true);
                    c.send_framed(&f);
                }
                _ => {
                    let m = gen_hostile(r, &remotes);
                    c.send(&m);
                }
            }
            if c.lock().ended.is_some() {
                break;
            }
        }
        end_it(&c, r).await;
        return;
    }
    if r.chance(1, 2) {
        c.env.spawn(collect(c.clone(), rd));
    }
    end_it(&c, r).await;
}

pub fn c19(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 150 == 5 {
        return flood(ctx, "C19");
    }
    if ctx.case % 400 == 7 {
        return crowd(ctx, "C19", &Knobs { early_close: 6, refuse: 4, ..Knobs::default() });
    }
    let mut r = ctx.r.fork();
    let mut sim = Sim::new(&mut r);
    sim.hostile = true;
    let k = Knobs { conns: (1, 1), sessions: (1, 3), out_max: 3000, in_max: 3000, ..Knobs::default() };
    {
        let mut w = sim.world.s.lock().unwrap();
        for i in 0..6 {
            let mut s = gen_script(&mut r, &Knobs { out_max: 5000, ..k.clone() }).script;
            if r.chance(1, 3) {
                s.ops.push(Op::Hang);
            }
            for c in s.cfg.iter_mut() {
                if r.chance(1, 4) {
                    c.rfail = Some(r.below(2000) as u64);
                }
                if r.chance(1, 4) {
                    c.wfail = Some(r.below(2000) as u64);
                }
            }
            s.refuse = r.chance(1, 8);
            w.scripts.insert(format!("hostile{}", i).into_bytes(), s);
        }
        let mut rr = r.fork();
        w.auth = Box::new(move |u, _, _| u.starts_with(b"user") || u == b"hostile" || rr.chance(1, 4));
        let mut rr = r.fork();
        w.query = Box::new(move |_, _, _, _| rr.chance(1, 2));
    }
    let first = r.chance(1, 2);
    let mut n = 0;
    let witness = |sim: &mut Sim, r: &mut R, name: &str| {
        add_named_client(sim, r, &k, name);
    };
    if first {
        witness(&mut sim, &mut r, "witness0");
    }
    for i in 0..r.range(1, 4) {
        let f = |r: &mut R| {
            let mut c = if r.chance(1, 3) { PipeCfg::random(r) } else { PipeCfg::smooth() };
            c.rchunk = c.rchunk.max(20);
            c.wchunk = c.wchunk.max(20);
            c.cap = c.cap.max(40);
            if r.chance(1, 4) {
                c.rfail = Some(r.below(6000) as u64);
            }
            if r.chance(1, 4) {
                c.wfail = Some(r.below(6000) as u64);
            }
            c
        };
        let (up, down) = (f(&mut r), f(&mut r));
        if up.rfail.is_some() || down.wfail.is_some() {
            sim.board.count("failing_transports", 1);
        }
        let (c, rd) = sim.connect(&mut r, &format!("hostile{}", i), up, down);
        let (point, ident, rr) = (host_point(sim.key), sim.ident, r.fork());
        sim.world.env.spawn(hostile(c, rd, rr, point, ident));
        n += 1;
    }
    if !first || r.chance(1, 2) {
        witness(&mut sim, &mut r, "witness1");
    }
    sim.settle("C19");
    if r.chance(1, 3) {
        // All attackers vanish.
        for c in &sim.conns {
            if c.name.starts_with("hostile") {
                c.abort();
            }
        }
    }
    witness(&mut sim, &mut r, "witness2");
    sim.settle("C19");
    sim.board.count("hostile_connections", n);
    {
        let mut b = sim.board.0.lock().unwrap();
        for (tags, text) in b.viol.iter_mut() {
            if text.contains("witness") {
                tags.push_str(",C19");
            }
        }
        let alive = sim.conns.iter().filter(|c| c.name.starts_with("hostile") && c.lock().ended.is_some()).count();
        *b.counters.entry("hostile_connections_ended".into()).or_insert(0) += alive as u64;
    }
    sim.conclude(ctx, "C19")
}

// ---------------------------------------------------------------- C20

pub fn plan(cmd: &[u8], steps: Vec<Step>, window: u32) -> Plan {
    let mut s = vec![Step::Start { command: Some(cmd.to_vec()), key: cmd.to_vec(), want: true }];
    s.extend(steps);
    Plan {
        local: 0x5747,
        window,
        maxpkt: 32768,
        steps: s,
        below: 0,
        grant: (1, 1000),
        lazy: 0,
        never: true,
        excess: false,
        full: false,
        late: vec![],
        late_yield: 0,
        open_ty: b"session".to_vec(),
    }
}

/// A client (or its process) that never pauses, over a transport that never does either.
pub fn flood(ctx: &mut Ctx, id: &'static str) -> CaseResult {
    let mut r = ctx.r.fork();
    let mut sim = Sim::new(&mut r);
    sim.world.s.lock().unwrap().auth = Box::new(|u, _, _| u != b"nobody");
    let k = Knobs { conns: (1, 1), sessions: (1, 3), out_max: 3000, in_max: 3000, ..Knobs::default() };
    let witnesses: Vec<String> = (0..r.range(1, 2)).map(|i| format!("witness{}", i)).collect();
    // Some are there already, some come later.
    let (before, later) = witnesses.split_at(r.below(witnesses.len() + 1));
    for n in before {
        add_named_client(&mut sim, &mut r, &k, n);
    }
    let (c, mut rd) = sim.connect(&mut r, "flooder", PipeCfg::smooth(), PipeCfg::smooth());
    let (up, down) = sim.world.s.lock().unwrap().transports.last().cloned().unwrap();
    let sink = down.clone();
    let kind = r.below(12);
    let what = ["lines", "ignored messages before the service", "ignored messages before login", "refused logins", "output"]
        .get(kind)
        .copied()
        .unwrap_or("messages after login");
    let cmd = b"endless".to_vec();
    sim.owners.lock().unwrap().insert(cmd.clone(), b"flooder".to_vec());
    let mut cfg = [PipeCfg::smooth(), PipeCfg::smooth(), PipeCfg::smooth()];
    if kind == 4 {
        cfg[r.range(1, 2)].endless = 100 << 20;
    }
    let script = Script { has: [true; 3], ops: vec![Op::Gate("never".into())], ops2: vec![], status: 0, cfg, refuse: false, delay: 0, gate: None };
    sim.world.s.lock().unwrap().scripts.insert(cmd.clone(), script);
    let hs = Hs::plain(&mut r);
    let (point, ident) = (host_point(sim.key), sim.ident);
    let (mut rr, mut rs) = (r.fork(), r.fork());
    let (done, names) = (sim.done.clone(), witnesses.clone());
    let sent = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let sent2 = sent.clone();
    let start = move |c: &Conn, remote: u32| {
        let c = c.clone();
        let which = rs.below(6);
        let size = *rs.pick(&[0, 5, 40, 700]);
        down.s.lock().unwrap().sink = true;
        if kind == 4 {
            return;
        }
        let mut total = 0;
        let f = move || {
            total += 1;
            sent2.store(total, std::sync::atomic::Ordering::Relaxed);
            if total > 45_000 || total > 500 && total % 16 == 0 && names.iter().all(|n| done.lock().unwrap().contains(n)) {
                return None;
            }
            let ignored = |r: &mut R| {
                let mut m = vec![2];
                if r.chance(1, 4) {
                    m = vec![4, 0];
                    put_str(&mut m, b"");
                }
                put_str(&mut m, &vec![b'i'; size]);
                m
            };
            let on = |ty: u8| [&[ty][..], &remote.to_be_bytes()].concat();
            Some(match kind {
                0 => [&vec![b'x'; size + 10][..], b"\r\n"].concat(),
                1 | 2 => c.packet(&ignored(&mut rs)),
                3 => c.packet(&password(b"nobody", b"nothing")),
                _ => {
                    let m = match which {
                        0 => ignored(&mut rs),
                        1 => [on(93), 1u32.to_be_bytes().to_vec()].concat(),
                        2 => [on(94), vec![0; 4]].concat(),
                        3 => {
                            let mut m = on(98);
                            put_str(&mut m, b"env");
                            m.push(rs.chance(1, 2) as u8);
                            put_str(&mut m, b"A");
                            put_str(&mut m, b"B");
                            m
                        }
                        4 => {
                            let mut m = vec![90];
                            put_str(&mut m, b"x11");
                            m.extend([0; 12]);
                            m
                        }
                        _ => vec![3, 0, 0, 0, 0],
                    };
                    c.packet(&m)
                }
            })
        };
        let mut s = up.s.lock().unwrap();
        s.source = Some(Box::new(f));
        drop(s);
        up.set_stalled(false);
    };
    sim.spawn("flooder", async move {
        if kind == 0 {
            start(&c, 0);
            return;
        }
        if handshake(&c, &mut rd, &hs, &point, ident).await.is_err() {
            c.fail(ALL, "handshake failed".into());
            return;
        }
        let mut remote = 0;
        match kind {
            1 => {}
            2 | 3 => {
                c.send(&service_request(b"ssh-userauth"));
                let _ = rd.recv_real().await;
            }
            _ => {
                if login(&c, &mut rd, b"flooder").await.is_err() {
                    c.fail(ALL, "login failed".into());
                    return;
                }
                let mut m = vec![90];
                put_str(&mut m, b"session");
                m.extend(7u32.to_be_bytes());
                m.extend([255; 4]);
                m.extend([255; 4]);
                c.send(&m);
                if let Some(m) = rd.recv_real().await.ok().and_then(|m| wire::parse(&m)) {
                    if let (91, F::U(v)) = (m.ty, &m.f[1]) {
                        remote = *v;
                    }
                }
                if kind == 4 || rr.chance(1, 2) {
                    if kind == 4 {
                        // Everything is sent from here on.
                        sink.s.lock().unwrap().sink = true;
                    }
                    c.send(&exec(remote, &cmd, false));
                    c.env.yields(20).await;
                }
            }
        }
        start(&c, remote);
    });
    if !later.is_empty() {
        // Those come while it goes on.
        for _ in 0..r.below(3) {
            sim.exec.nudge();
        }
        for n in later {
            add_named_client(&mut sim, &mut r, &k, n);
        }
    }
    sim.run();
    if let Some(t) = sim.world.env.unfair() {
        sim.board.fail("C19,C20", format!("{} ({})", t, what));
    }
    ctx.count("floods", 1);
    ctx.count(&format!("flood of {}", what), 1);
    ctx.count("flood_messages", sent.load(std::sync::atomic::Ordering::Relaxed));
    sim.settle(id);
    sim.conclude(ctx, id)
}

/// Output of others between a request and its answer, beyond which it is considered to be kept waiting.
const PATIENCE: usize = 400_000;

/// Processes that always have more output, and requests of the same client meanwhile.
fn hog(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let mut sim = Sim::new(&mut r);
    let mut down = if r.chance(1, 3) { PipeCfg::random(&mut r) } else { PipeCfg::smooth() };
    down.cap = *r.pick(&[100, 300, 1000, 5000, 40_000]);
    down.rchunk = 1 << 20;
    let mut up = PipeCfg::smooth();
    up.rdelay = *r.pick(&[0, 0, 2]);
    let (c, mut rd) = sim.connect(&mut r, "hog", up, down);
    let hogs = if r.chance(1, 3) { 2 } else { 1 };
    for i in 0..hogs + 1 {
        let cmd = format!("hog{}", i).into_bytes();
        sim.owners.lock().unwrap().insert(cmd.clone(), b"hog".to_vec());
        let mut cfg = [PipeCfg::smooth(), PipeCfg::smooth(), PipeCfg::smooth()];
        let mut ops = vec![Op::Out(r.below(2000)), Op::Err(r.below(300))];
        if i < hogs {
            cfg[r.range(1, 2)].endless = 6 * PATIENCE;
            ops = vec![Op::Gate("never".into())];
        }
        let script = Script { has: [true; 3], ops, ops2: vec![], status: 9, cfg, refuse: false, delay: 0, gate: None };
        sim.world.s.lock().unwrap().scripts.insert(cmd, script);
    }
    let hs = Hs::plain(&mut r);
    let (point, ident) = (host_point(sim.key), sim.ident);
    let mut r2 = r.fork();
    sim.spawn("hog", async move {
        if handshake(&c, &mut rd, &hs, &point, ident).await.is_err() || login(&c, &mut rd, b"hog").await.is_err() {
            c.fail(ALL, "handshake or login failed".into());
            return;
        }
        let big = |local: u32| msg(90, vec![F::S(b"session".to_vec()), F::U(local), F::U(u32::MAX), F::U(32768)]);
        let mut remotes = Vec::new();
        for i in 0..hogs {
            c.send(&big(i));
            match rd.recv_real().await.ok().and_then(|m| wire::parse(&m)) {
                Some(wire::Msg { ty: 91, f }) => remotes.push(if let F::U(v) = f[1] { v } else { 0 }),
                m => return c.fail(ALL, format!("{:?} instead of a channel", m)),
            }
        }
        for (i, n) in remotes.iter().enumerate() {
            c.send(&exec(*n, format!("hog{}", i).as_bytes(), false));
        }
        // Let them get going.
        let mut wait = r2.below(60_000);
        let mut probes: Vec<usize> = (0..r2.range(2, 5)).map(|_| r2.below(3)).collect();
        if r2.chance(1, 2) {
            probes.push(3);
        }
        let mut probes = probes.into_iter();
        let (mut probe, mut local, mut other, mut waited) = (9, hogs, 0, 0usize);
        loop {
            let m = match rd.recv_real().await {
                Ok(m) => m,
                Err(e) => return c.fail(ALL, format!("the connection ended: {:?}", e)),
            };
            let m = match wire::parse(&m) {
                Some(m) => m,
                None => return c.fail(ALL, format!("not a message: {:02x?}", m)),
            };
            let to = if let Some(F::U(v)) = m.f.first() { *v } else { u32::MAX };
            if matches!(m.ty, 94 | 95) && to < hogs {
                let n = if let Some(F::S(d)) = m.f.last() { d.len() } else { 0 };
                waited += n;
                wait = wait.saturating_sub(n);
                if waited > PATIENCE && probe != 9 {
                    let what = ["an opened channel", "a request", "a process", "the end of the channel"][probe];
                    return c.fail("C20", format!("{} bytes of other output while waiting for an answer to {}", waited, what));
                }
            }
            let answered = match (probe, m.ty) {
                (0, 91) => true,
                (1, 100) => true,
                (2, 91) => {
                    other = if let F::U(v) = m.f[1] { v } else { 0 };
                    c.send(&exec(other, format!("hog{}", hogs).as_bytes(), false));
                    waited = 0;
                    false
                }
                (2, 97) if to == local => {
                    c.send(&msg(97, vec![F::U(other)]));
                    true
                }
                (3, 97) => return c.board.count("answers_beside_endless_output", 1),
                (9, _) => wait == 0,
                _ => false,
            };
            if answered {
                if probe != 9 {
                    c.board.count("answers_beside_endless_output", 1);
                }
                waited = 0;
                probe = match probes.next() {
                    Some(p) => p,
                    None => return,
                };
                match probe {
                    0 | 2 => {
                        local += 1;
                        c.send(&open(local));
                    }
                    1 => {
                        let mut d = Vec::new();
                        put_str(&mut d, b"A");
                        put_str(&mut d, b"B");
                        c.send(&msg(98, vec![F::U(*r2.pick(&remotes)), F::S(b"env".to_vec()), F::B(true), F::S(d)]));
                    }
                    _ => c.send(&msg(97, vec![F::U(*r2.pick(&remotes))])),
                }
            }
        }
    });
    ctx.count("endless_output", 1);
    sim.run();
    sim.settle("C20");
    sim.conclude(ctx, "C20")
}

pub fn c20(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 100 == 3 {
        return flood(ctx, "C20");
    }
    if ctx.case % 50 == 7 {
        return hog(ctx);
    }
    let mut r = ctx.r.fork();
    let mut sim = Sim::new(&mut r);
    let k = Knobs { conns: (1, 1), sessions: (1, 4), out_max: 6000, in_max: 6000, ..Knobs::default() };
    // Now and then, very many of them.
    let many = r.chance(1, 60);
    let n = if many { *r.pick(&[10, 20, 40, 150]) } else { r.range(1, 3) };
    let k = if many { Knobs { sessions: (1, 1), out_max: 500, in_max: 500, ..k } } else { k };
    if many {
        ctx.count("many_stalled", 1);
    }
    let mut release: Vec<Box<dyn FnOnce(&Sim)>> = Vec::new();
    let mut free: Vec<String> = Vec::new();
    let mut kinds: Vec<&'static str> = Vec::new();
    for i in 0..n {
        let name = format!("stalled{}", i);
        let user = format!("user-{}", name).into_bytes();
        let kind = if many { r.below(4).min(2) } else { r.below(7) };
        let gate = format!("gate{}", i);
        match kind {
            0 => {
                // Stops reading; everything the server has for it piles up.
                let c = add_named_client(&mut sim, &mut r, &Knobs { out_max: 20_000, big: 8, ..k.clone() }, &name);
                let k = r.below(1500);
                let env = sim.world.env.clone();
                let c2 = c.clone();
                let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
                let over2 = over.clone();
                env.clone().spawn(async move {
                    env.yields(k).await;
                    if !over2.load(std::sync::atomic::Ordering::SeqCst) {
                        c2.pause(true);
                    }
                });
                release.push(Box::new(move |_| {
                    over.store(true, std::sync::atomic::Ordering::SeqCst);
                    c.pause(false)
                }));
                kinds.push("stalled_reader");
            }
            1 => {
                // Stops sending, possibly in the middle of a packet.
                let c = add_named_client(&mut sim, &mut r, &k, &name);
                let limit = if r.chance(1, 2) { r.below(1500) } else { r.below(12_000) };
                c.lock().limit = Some(limit as u64);
                release.push(Box::new(move |_| {
                    let mut s = c.lock();
                    s.limit = None;
                    wake(&mut s);
                }));
                kinds.push("stalled_sender");
            }
            2 => {
                // The application takes its time for the login.
                sim.world.s.lock().unwrap().auth_gate.insert(user.clone(), gate.clone());
                add_named_client(&mut sim, &mut r, &k, &name);
                release.push(Box::new(move |s| s.world.env.open_gate(&gate)));
                kinds.push("stalled_authentication");
            }
            _ => {
                // One channel is stuck, the others of the connection are not.
                let cmd = format!("stuck-{}", name).into_bytes();
                let mut script = Script {
                    has: [true; 3],
                    ops: vec![],
                    ops2: vec![],
                    status: 3,
                    cfg: [PipeCfg::smooth(), PipeCfg::smooth(), PipeCfg::smooth()],
                    refuse: false,
                    delay: 0,
                    gate: None,
                };
                let p = match kind {
                    3 => {
                        // Does not read its input.
                        script.cfg[0].cap = r.range(1, 5000);
                        script.ops = vec![Op::Gate(gate.clone()), Op::ReadEof, Op::Out(100)];
                        let n = r.range(5000, 100_000);
                        let g = gate.clone();
                        release.push(Box::new(move |s| s.world.env.open_gate(&g)));
                        kinds.push("process_not_reading");
                        plan(&cmd, vec![Step::Data(r.bytes(n)), Step::Eof], 1 << 20)
                    }
                    4 => {
                        // The client does not grant window.
                        let w = *r.pick(&[0u32, 1, 255, 256, 257, 1000]);
                        script.ops = vec![Op::Out(w as usize + r.range(1, 3000)), Op::Err(r.below(3000))];
                        kinds.push("window_exhausted");
                        plan(&cmd, vec![], w)
                    }
                    5 => {
                        // Says nothing for a long time.
                        script.ops = vec![Op::Out(r.below(600)), Op::Gate(gate.clone()), Op::Err(10)];
                        let g = gate.clone();
                        release.push(Box::new(move |s| s.world.env.open_gate(&g)));
                        kinds.push("process_idle");
                        plan(&cmd, vec![Step::Eof], 1 << 20)
                    }
                    _ => {
                        // Exits late, the streams end early.
                        script.ops = vec![Op::Out(r.below(600)), Op::CloseOut, Op::CloseErr, Op::CloseIn, Op::Gate(gate.clone())];
                        let g = gate.clone();
                        release.push(Box::new(move |s| s.world.env.open_gate(&g)));
                        kinds.push("process_exits_late");
                        plan(&cmd, vec![Step::Data(vec![1; 3000])], 1 << 20)
                    }
                };
                // Several of them, sometimes.
                let stuck = if r.chance(1, 10) { *r.pick(&[3, 5, 12, 30]) } else { 1 };
                if stuck > 1 {
                    ctx.count("many_stuck_channels", 1);
                }
                let mut p = vec![p];
                for j in 0..stuck {
                    let mut q = p[0].clone();
                    let cmd = if j == 0 { cmd.clone() } else { format!("stuck-{}-{}", name, j).into_bytes() };
                    q.local += j as u32;
                    q.steps[0] = Step::Start { command: Some(cmd.clone()), key: cmd.clone(), want: true };
                    if j > 0 {
                        p.push(q);
                    }
                    sim.owners.lock().unwrap().insert(cmd.clone(), user.clone());
                    sim.world.s.lock().unwrap().scripts.insert(cmd, script.clone());
                }
                let (up, down) = transport(&mut r, &k);
                let (c, mut rd) = sim.connect(&mut r, &name, up, down);
                if kind == 4 {
                    let c = c.clone();
                    release.push(Box::new(move |_| {
                        for j in 0..stuck {
                            let mut s = c.lock();
                            if let Some(ch) = s.chans.get_mut(&(0x5747 + j)) {
                                ch.credit += 100_000;
                                if let Some(remote) = ch.remote {
                                    drop(s);
                                    c.send(&msg(93, vec![F::U(remote), F::U(100_000)]));
                                }
                            }
                        }
                    }));
                }
                let mut names = Names { conn: 100 + i, user: user.clone(), next: 0, shell_used: true };
                let plans: Vec<Plan> =
                    (0..r.range(1, 4)).map(|_| gen_plan(&mut r, &k, &sim.world, &mut names, &sim.owners)).collect();
                let hs = Hs::plain(&mut r);
                let (point, ident, rr) = (host_point(sim.key), sim.ident, r.fork());
                let done = sim.done.clone();
                sim.tasks.push(name.clone());
                let rest = format!("free-channels{}", i);
                free.push(rest.clone());
                let par = r.range(1, 3);
                sim.spawn(&rest, async move {
                    if handshake(&c, &mut rd, &hs, &point, ident).await.is_err() || login(&c, &mut rd, &user).await.is_err() {
                        c.fail(ALL, "cannot connect".into());
                        return;
                    }
                    c.env.spawn(reader(c.clone(), rd));
                    let s: Vec<_> = p.into_iter().map(|p| session(c.clone(), p)).collect();
                    c.env.spawn(async move {
                        futures::future::join_all(s).await;
                        done.lock().unwrap().push(name);
                    });
                    c.env.yields(5).await;
                    run_sessions(c.clone(), plans, par, rr).await;
                });
            }
        }
    }
    for i in 0..r.range(1, 2) {
        let name = format!("free{}", i);
        add_named_client(&mut sim, &mut r, &k, &name);
        free.push(name);
    }
    sim.run();
    let u = sim.unfinished();
    let stalled = u.iter().filter(|n| n.starts_with("stalled")).count();
    for n in &u {
        if free.contains(n) {
            sim.board.fail("C20", format!("stuck: {} cannot finish while others are stalled ({:?})", n, kinds));
        }
    }
    if u.iter().any(|n| free.contains(n)) {
        sim.settle("C20");
        return sim.conclude(ctx, "C20");
    }
    ctx.count("stalled_at_rest", stalled as u64);
    for k in &kinds {
        ctx.count(k, 1);
    }
    // At rest: a further poll of everything must not start anything.
    let before = sim.exec.server_polls;
    sim.exec.nudge();
    sim.run();
    let polls = sim.exec.server_polls - before;
    if polls > 50 {
        sim.board.fail("C20", format!("{} polls of a server that is at rest", polls));
    }
    ctx.count("idle_states", 1);
    for f in release {
        f(&sim);
        if r.chance(1, 2) {
            sim.run();
        }
    }
    sim.settle("C20");
    if sim.unfinished().is_empty() {
        ctx.count("worlds_resumed", 1);
    }
    // Idle again, with connections open.
    let before = sim.exec.server_polls;
    sim.exec.nudge();
    sim.run();
    let polls = sim.exec.server_polls - before;
    if polls > 50 {
        sim.board.fail("C20", format!("{} polls of a server that is idle", polls));
    }
    sim.conclude(ctx, "C20")
}
