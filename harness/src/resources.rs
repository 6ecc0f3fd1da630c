//! C29: what connections and channels used is released, and peers cannot make the server hold
//! more than a bounded amount. Memory is what the server allocated while it was polled.

use crate::alloc;
use crate::client::*;
use crate::hostile::{hostile_at, msg, plan};
use crate::rng::R;
use crate::run::{CaseResult, Check, Ctx};
use crate::sim::*;
use crate::wire::F;
use crate::work::*;
use std::sync::atomic::Ordering::SeqCst;

/// Report everything of ended connections and channels that the server still holds.
fn released(sim: &Sim, when: &str, connections: bool) {
    let s = sim.world.s.lock().unwrap();
    for (i, p) in s.procs.iter().enumerate() {
        let h = p.held();
        if !h.is_empty() {
            sim.board.fail("C29", format!("{}: the server still holds {:?} of process {} (ended: {})", when, h, i, p.ended));
        }
    }
    if connections {
        for (i, (up, down)) in s.transports.iter().enumerate() {
            if !up.s.lock().unwrap().rclosed || !down.s.lock().unwrap().wclosed {
                sim.board.fail("C29", format!("{}: the server still holds the transport of connection {}", when, i));
            }
        }
        let n = s.users.load(SeqCst);
        if n != 0 {
            sim.board.fail("C29", format!("{}: the server still holds {} users", when, n));
        }
    }
}

/// Whether more is held after the later rounds than after the earlier ones.
fn more(live: &[(i64, i64)]) -> bool {
    let n = live.len() / 3;
    let first = live[..n].iter().map(|l| l.0).max().unwrap();
    let last = live[live.len() - n..].iter().map(|l| l.0).min().unwrap();
    last > first + 64
}

/// If more was held after `rounds` rounds, look at so many times more of them, as something may
/// have been allocated once and for all.
const LONGER: usize = 8;

fn enough(live: &[(i64, i64)], rounds: usize) -> bool {
    live.len() == rounds && !more(live) || live.len() == rounds * LONGER
}

/// Memory after each round of the same kind must not keep growing: not in the first rounds, nor in
/// three times, nor in eight times as many.
fn judge(sim: &Sim, live: &[(i64, i64)], rounds: usize, what: &str) {
    if std::env::var_os("VH_LIVE").is_some() {
        eprintln!("{}: {:?}", what, live);
    }
    if live.len() > rounds {
        let most = |n: usize| live[..n].iter().map(|l| l.0).max().unwrap();
        let least = |n: usize| live[n - 2..n + 1].iter().map(|l| l.0).min().unwrap();
        let (a, b, c) = (most(rounds / 2), least(rounds * 3), least(live.len() - 1));
        let elapsed = (live.len() - rounds) as i64;
        sim.board.count("longer_runs", 1);
        if b > a + 64 && c > most(rounds * 2) + 64 && c - a > 4 * elapsed {
            sim.board.fail("C29", format!("memory grows with {}: bytes and blocks after each round: {:?}", what, live));
        }
    }
}

fn attackers(sim: &mut Sim, r: &mut R, k: &Knobs) {
    let mut w = sim.world.s.lock().unwrap();
    for i in 0..6 {
        let mut s = gen_script(r, &Knobs { out_max: 5000, ..k.clone() }).script;
        if r.chance(1, 3) {
            s.ops.push(Op::Hang);
        }
        for c in s.cfg.iter_mut() {
            if r.chance(1, 4) {
                c.rfail = Some(r.below(2000) as u64);
            }
            if r.chance(1, 4) {
                c.wfail = Some(r.below(2000) as u64);
            }
        }
        s.refuse = r.chance(1, 8);
        w.scripts.insert(format!("hostile{}", i).into_bytes(), s);
    }
    let mut rr = r.fork();
    w.auth = Box::new(move |u, _, _| u.starts_with(b"user") || u == b"hostile" || rr.chance(1, 4));
    let mut rr = r.fork();
    w.query = Box::new(move |_, _, _, _| rr.chance(1, 2));
}

fn attacker(sim: &mut Sim, r: &mut R, name: &str, which: Option<(usize, usize)>) {
    let f = |r: &mut R| {
        let mut c = if r.chance(1, 3) { PipeCfg::random(r) } else { PipeCfg::smooth() };
        c.rchunk = c.rchunk.max(20);
        c.wchunk = c.wchunk.max(20);
        c.cap = c.cap.max(40);
        if r.chance(1, 6) {
            c.rfail = Some(r.below(6000) as u64);
        }
        if r.chance(1, 6) {
            c.wfail = Some(r.below(6000) as u64);
        }
        c
    };
    let (up, down) = (f(r), f(r));
    let (c, rd) = sim.connect(r, name, up, down);
    let (point, ident, rr) = (host_point(sim.key), sim.ident, r.fork());
    sim.world.env.spawn(hostile_at(c, rd, rr, point, ident, which));
}

/// Rounds of connections that end in all ways.
fn connections(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let mut sim = Sim::new(r);
    sim.hostile = true;
    let k = Knobs { conns: (1, 1), sessions: (1, 3), out_max: 1500, in_max: 1500, ..Knobs::default() };
    attackers(&mut sim, r, &k);
    let mut live = Vec::new();
    let mut count = 0;
    // All attacks of the same kind, so that little things add up.
    let which = r.chance(1, 2).then(|| (*r.pick(&[0, 1, 2, 2, 2, 3, 4, 5]), r.below(100)));
    let rounds = 12;
    for round in 0..rounds * LONGER {
        // The first round is the largest, so that what is kept for reuse is allocated by then.
        let n = if round == 0 { 6 } else { r.range(1, 5) };
        for i in 0..n {
            let name = format!("c{}-{}", round, i);
            if r.chance(1, 3) {
                add_named_client(&mut sim, r, &k, &name);
            } else {
                attacker(&mut sim, r, &name, which);
            }
            count += 1;
        }
        if r.chance(1, 3) {
            // They vanish at a random moment.
            let cs: Vec<Conn> = sim.conns.iter().rev().take(n).cloned().collect();
            let env = sim.world.env.clone();
            let y = r.below(400);
            let done = sim.done.clone();
            let tasks = sim.tasks.clone();
            sim.world.env.spawn(async move {
                env.yields(y).await;
                for c in cs {
                    c.abort();
                }
                done.lock().unwrap().extend(tasks);
            });
        }
        sim.run();
        for c in sim.conns.iter().rev().take(n) {
            c.abort();
        }
        sim.run();
        released(&sim, &format!("after round {}, with all connections gone", round), true);
        live.push((alloc::live(), alloc::blocks()));
        if enough(&live, rounds) || !sim.board.0.lock().unwrap().viol.iter().all(|v| !v.0.contains("C29")) {
            break;
        }
    }
    if enough(&live, rounds) {
        judge(&sim, &live, rounds, "connections");
        ctx.count("connection_rounds", live.len() as u64);
        ctx.count("connections_released", count);
    }
    ctx.count("memory_measurements", live.len() as u64);
    // What attackers and interrupted clients report is judged elsewhere.
    only_mine(&sim);
    sim.conclude(ctx, "C29")
}

fn only_mine(sim: &Sim) {
    sim.board.0.lock().unwrap().viol.retain(|v| v.0.contains("C29"));
}

/// Rounds of channels of one connection.
fn channels(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let mut sim = Sim::new(r);
    let k = Knobs { sessions: (1, 1), out_max: 1500, in_max: 1500, early_close: 6, extras: 3, refuse: 3, open_other: 2, ..Knobs::default() };
    let (up, down) = transport(r, &k);
    let (c, mut rd) = sim.connect(r, "client", up, down);
    let user = b"user".to_vec();
    let (hs, point, ident) = (Hs::plain(r), host_point(sim.key), sim.ident);
    {
        let c = c.clone();
        let user = user.clone();
        sim.spawn("login", async move {
            if handshake(&c, &mut rd, &hs, &point, ident).await.is_err() || login(&c, &mut rd, &user).await.is_err() {
                c.fail(ALL, "cannot connect".into());
                return;
            }
            c.env.spawn(reader(c.clone(), rd));
        });
    }
    sim.settle("C29");
    let mut names = Names { conn: 0, user, next: 0, shell_used: false };
    let mut live = Vec::new();
    let rounds = 15;
    let mut count = 0;
    for round in 0..rounds * LONGER {
        let (n, par) = if round == 0 { (10, 5) } else { (r.range(1, 6), r.range(1, 4)) };
        let plans: Vec<Plan> = (0..n).map(|_| gen_plan(r, &k, &sim.world, &mut names, &sim.owners)).collect();
        let (cc, rr) = (c.clone(), r.fork());
        sim.spawn(&format!("round{}", round), run_sessions(cc, plans, par, rr));
        sim.settle("C29");
        if !sim.unfinished().is_empty() || c.lock().ended.is_some() {
            break;
        }
        released(&sim, &format!("after round {}, with all channels closed", round), false);
        live.push((alloc::live(), alloc::blocks()));
        count += n as u64;
        if enough(&live, rounds) {
            break;
        }
    }
    if enough(&live, rounds) {
        judge(&sim, &live, rounds, "channels");
        ctx.count("channel_rounds", live.len() as u64);
        ctx.count("channels_released", count);
    }
    ctx.count("memory_measurements", live.len() as u64);
    c.abort();
    sim.run();
    released(&sim, "with the connection gone", true);
    sim.conclude(ctx, "C29")
}

/// Clients and processes that produce without consuming.
fn stalls(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let mut sim = Sim::new(r);
    let mut coarse = PipeCfg::smooth();
    coarse.cap = r.range(2000, 100_000);
    let kind = r.below(7);
    let mut up = coarse.clone();
    if kind == 6 {
        // Many wake-ups.
        up.cap = r.range(1, 200);
    }
    let (c, mut rd) = sim.connect(r, "client", up, coarse.clone());
    let (hs, point, ident) = (Hs::plain(r), host_point(sim.key), sim.ident);
    let cmd = b"stall".to_vec();
    let size = r.range(1_000_000, 3_000_000);
    let mut script = Script {
        has: [true; 3],
        ops: vec![],
        ops2: vec![],
        status: 3,
        cfg: [PipeCfg::smooth(), PipeCfg::smooth(), PipeCfg::smooth()],
        refuse: false,
        delay: 0,
        gate: None,
    };
    for p in script.cfg.iter_mut() {
        p.cap = r.range(100, 70_000);
    }
    let mut window = 1 << 30;
    let mut steps = vec![];
    let mut data = 0;
    match kind {
        // Lots of output, which the client does not read or has no window for.
        0 | 1 => {
            script.ops = vec![Op::Out(size)];
            script.ops2 = vec![Op::Err(r.below(100_000))];
            if kind == 1 {
                window = r.below(3000) as u32;
            }
        }
        // Lots of input for a process that does not read yet.
        2 | 3 => {
            script.ops = vec![Op::Gate("gate".into()), Op::ReadEof];
            data = if kind == 2 { size } else { r.range(1000, 1 << 21) };
            steps = vec![Step::Replies, Step::Data(r.bytes(data)), Step::Eof];
        }
        // Input beyond the window.
        5 => {
            script.ops = vec![Op::Gate("gate".into()), Op::ReadEof];
            data = 1 << 22;
        }
        // Messages for a session that cannot send.
        6 => {
            script.ops = vec![Op::Out(1 << 20)];
            if r.chance(3, 4) {
                script.ops2 = vec![Op::Err(1 << 20)];
            }
        }
        // Many requests whose answers are not read.
        _ => script.ops = vec![Op::ReadEof],
    }
    sim.owners.lock().unwrap().insert(cmd.clone(), b"user".to_vec());
    sim.world.s.lock().unwrap().scripts.insert(cmd.clone(), script);
    {
        let c = c.clone();
        sim.spawn("login", async move {
            if handshake(&c, &mut rd, &hs, &point, ident).await.is_err() || login(&c, &mut rd, b"user").await.is_err() {
                c.fail(ALL, "cannot connect".into());
                return;
            }
            c.env.spawn(reader(c.clone(), rd));
        });
    }
    sim.settle("C29");
    let before = alloc::live();
    alloc::reset_peak();
    let p = plan(&cmd, steps, window);
    if kind == 5 {
        let with_process = r.chance(2, 3);
        // What else counts towards the window, in amounts that are returned.
        let others = if r.chance(1, 2) { 8 << 20 } else { 0 };
        c.lock().expect_end = true;
        let (cc, n) = (c.clone(), r.range(1, 32768));
        c.env.spawn(async move {
            cc.send(&crate::attack::open(7));
            if with_process {
                cc.send(&crate::attack::exec(0, b"stall", false));
            }
            let mut left: usize = others;
            while left > 0 && cc.lock().ended.is_none() && !cc.lock().out_dead {
                cc.send(&msg(95, vec![F::U(0), F::U(1), F::S(vec![7; n])]));
                left -= n.min(left);
                cc.wait("", "", |s| (s.out_len() < 100_000 || s.out_dead).then_some(())).await;
            }
            let mut left = 12 << 20;
            while left > 0 && cc.lock().ended.is_none() && !cc.lock().out_dead {
                cc.send(&msg(94, vec![F::U(0), F::S(vec![7; n])]));
                left -= n.min(left);
                cc.wait("", "", |s| (s.out_len() < 100_000 || s.out_dead).then_some(())).await;
            }
        });
    } else if kind == 6 {
        let s = session(c.clone(), p);
        c.env.spawn(s);
        sim.world.env.spawn({
            let (cc, env, y) = (c.clone(), c.env.clone(), r.below(100));
            async move {
                env.yields(y).await;
                cc.pause(true);
            }
        });
        sim.run();
        let remote = c.lock().chans.values().find_map(|ch| ch.remote);
        if let Some(remote) = remote {
            let mut l = Vec::new();
            for _ in 0..3 {
                for _ in 0..700 {
                    c.send(&msg(93, vec![F::U(remote), F::U(0)]));
                }
                sim.run();
                l.push(alloc::live());
            }
            if l[2] > l[1] + 64 && l[1] > l[0] + 64 {
                sim.board.fail("C29", format!("memory grows with messages for a session that cannot send: {:?}", l));
            }
        }
    } else if kind == 4 {
        c.pause(true);
        sim.run();
        let n = r.range(2000, 8000);
        let ty = r.below(3);
        c.lock().expect_end = true;
        for i in 0..n {
            match ty {
                0 | 1 => c.send(&msg(90, vec![F::S(vec![b'x'; 300]), F::U(i as u32), F::U(1000), F::U(1000)])),
                _ => c.send(&msg(2, vec![F::S(vec![0; 1000])])),
            }
        }
    } else {
        let s = session(c.clone(), p);
        c.env.spawn(s);
        if kind == 0 {
            let y = r.below(3000);
            let (cc, env) = (c.clone(), c.env.clone());
            c.env.spawn(async move {
                env.yields(y).await;
                cc.pause(true);
            });
        }
    }
    sim.run();
    let peak = alloc::peak() - before;
    // The window is what the server offered to hold; a buffer that grows holds less than three times that for a moment.
    if kind == 5 {
        c.lock().chans.clear();
    }
    let granted = c.lock().chans.values().map(|ch| ch.swin + ch.sent.len() as u64).max().unwrap_or(0) as i64;
    let granted = if kind == 5 { c.lock().offered as i64 } else { granted };
    let bound = 150_000 + if data > 0 { 3 * granted.min(data as i64 + 40_000) } else { 0 };
    let text = match kind {
        0 => "a process produces output that the client does not read",
        1 => "a process produces output that there is no window for",
        2 | 3 => "a client sends data that the process does not read",
        5 => "a client sends more data than the window allows",
        6 => "a client sends messages for a session that cannot send",
        _ => "a client does not read the answers to its requests",
    };
    ctx.count(&format!("stalls: {}", text), 1);
    if peak > bound {
        sim.board.fail("C29", format!("{}: the server uses {} bytes for it (at most {} expected)", text, peak, bound));
    }
    ctx.cov.counters.entry("largest_bytes_held".into()).and_modify(|v| *v = (*v).max(peak as u64)).or_insert(peak as u64);
    // Everything proceeds and is released.
    match kind {
        2 | 3 | 5 => {
            sim.world.env.open_gate("gate");
            sim.run();
            let l = alloc::live() - before;
            if l > 150_000 {
                sim.board.fail("C29", format!("{}: the server still uses {} bytes after the process has read it", text, l));
            }
        }
        _ => {}
    }
    let ok = !c.board.0.lock().unwrap().viol.iter().any(|v| v.0.contains("C29"));
    c.abort();
    sim.run();
    released(&sim, "with the connection gone", true);
    if ok {
        let l = alloc::live() - before;
        if l > 0 {
            sim.board.fail("C29", format!("{}: {} bytes more than before with the connection gone", text, l));
        }
    }
    ctx.count("memory_measurements", 2);
    only_mine(&sim);
    sim.conclude(ctx, "C29")
}

/// A client that says goodbye, stops sending or misbehaves, but keeps its side of the connection.
fn leaving(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let mut sim = Sim::new(r);
    let k = Knobs { out_max: 1500, in_max: 1500, ..Knobs::default() };
    let (up, down) = transport(r, &k);
    let (c, mut rd) = sim.connect(r, "client", up, down);
    let (hs, point, ident) = (Hs::plain(r), host_point(sim.key), sim.ident);
    let stage = *r.pick(&[0, 1, 2, 3, 3, 3, 3, 3]);
    {
        let c = c.clone();
        sim.spawn("login", async move {
            if stage == 0 {
                return c.raw(b"SSH-2.0-client\r\n");
            }
            if handshake(&c, &mut rd, &hs, &point, ident).await.is_err() {
                c.fail(ALL, "cannot connect".into());
                return;
            }
            if stage == 2 {
                c.send(&service_request(b"ssh-userauth"));
                let _ = rd.recv_real().await;
            } else if stage == 3 && login(&c, &mut rd, b"user").await.is_err() {
                c.fail(ALL, "cannot log in".into());
                return;
            }
            c.env.spawn(reader(c.clone(), rd));
        });
    }
    sim.settle("C29");
    if stage == 3 {
        for i in 0..r.below(5) {
            let cmd = format!("leaving{}", i).into_bytes();
            sim.owners.lock().unwrap().insert(cmd.clone(), b"user".to_vec());
            let ops = match r.below(5) {
                0 => vec![Op::Hang],
                1 => vec![Op::Echo],
                2 => vec![Op::Out(200_000), Op::Hang],
                3 => vec![Op::Err(r.below(3000)), Op::CloseOut, Op::Hang],
                _ => vec![Op::CloseIn, Op::StatusEarly(3), Op::Hang],
            };
            let mut cfg = [PipeCfg::smooth(), PipeCfg::smooth(), PipeCfg::smooth()];
            for p in cfg.iter_mut() {
                p.cap = r.range(100, 70_000);
            }
            let script = Script { has: [true; 3], ops, ops2: vec![], status: 3, cfg, refuse: false, delay: 0, gate: None };
            sim.world.s.lock().unwrap().scripts.insert(cmd.clone(), script);
            let n = *r.pick(&[0, 100, 3000]);
            let mut p = plan(&cmd, vec![Step::Replies, Step::Data(r.bytes(n))], *r.pick(&[0, 1000, 1 << 20]));
            p.local = i as u32;
            c.env.spawn(session(c.clone(), p));
        }
        if r.chance(1, 2) {
            sim.run();
        } else {
            for _ in 0..r.below(300) {
                sim.exec.nudge();
            }
        }
        sim.run();
        if r.chance(1, 3) {
            // It does not read anymore either.
            c.pause(true);
        }
    }
    c.lock().expect_end = true;
    let way = r.below(6);
    let what = ["disconnects", "disconnects", "stops sending", "sends garbage", "uses an unknown channel", "sends an unexpected message"][way];
    match way {
        0 | 1 if stage > 0 => c.send(&msg(1, vec![F::U(11), F::S(b"bye".to_vec()), F::S(vec![])])),
        0..=2 => c.finish(),
        3 => {
            let n = r.range(70_000, 80_000);
            c.raw(&r.bytes(n))
        }
        4 if r.chance(1, 2) => c.send(&msg(93, vec![F::U(77), F::U(1)])),
        4 => c.send(&msg(*r.pick(&[96, 97]), vec![F::U(77)])),
        _ if r.chance(1, 2) => c.send(&msg(*r.pick(&[99, 100]), vec![F::U(0)])),
        _ => c.send(&msg(*r.pick(&[52, 21]), vec![])),
    }
    sim.run();
    let ended = {
        let s = sim.world.s.lock().unwrap();
        let ended = s.transports.iter().any(|(up, down)| up.s.lock().unwrap().rclosed || down.s.lock().unwrap().wclosed);
        ended
    };
    if way < 4 || ended {
        released(&sim, &format!("after a client {} at stage {}", what, stage), true);
        ctx.count("connections_left_open_released", 1);
        ctx.count(&format!("a client {}", what), 1);
    }
    c.abort();
    sim.run();
    released(&sim, "with the connection gone", true);
    only_mine(&sim);
    sim.conclude(ctx, "C29")
}

fn c29(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 30 == 7 {
        return crate::sshd::leftovers(ctx);
    }
    match ctx.case % 8 {
        0 if ctx.case % 16 == 0 => {
            for _ in 0..10 {
                leaving(ctx)?;
            }
            Ok(())
        }
        0 | 1 => stalls(ctx),
        2 | 3 | 4 => channels(ctx),
        _ => connections(ctx),
    }
}

pub static CHECKS: &[Check] = &[Check {
    id: "C29",
    run: c29,
    cases: (1500, 30_000),
    rule: "rounds of connections that end in every way and of channels of one connection, after each of which everything the server was given must have \
           been dropped and its memory must not keep growing; floods against stalled clients, windows and processes, during which its memory is bounded; \
           distinct = distinct schedules",
    evaluations: "memory_measurements",
    needs: &["connections_released", "channels_released", "connections_left_open_released", "daemon_connections_released",
        "stalls: a process produces output that the client does not read",
        "stalls: a process produces output that there is no window for",
        "stalls: a client sends data that the process does not read",
        "stalls: a client sends more data than the window allows",
        "stalls: a client sends messages for a session that cannot send",
        "stalls: a client does not read the answers to its requests",
    ],
    level: "exploration",
    assumptions: &[
        "memory is what is allocated while the server's future is polled, outside of the harness's callbacks and transports",
        "random choices of futures::select! are not controlled, only sampled",
    ],
}];
