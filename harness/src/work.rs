//! Workloads of clients that behave: several connections with several channels each, random
//! processes, windows, transports and schedules. Every monitor of `client` is active in all of them.

use crate::client::*;
use crate::rng::R;
use crate::run::{CaseResult, Ctx};
use crate::sim::*;
use crate::wire;
use futures::StreamExt;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const IDENTS: &[&[u8]] = &[
    b"SSH-2.0-nora_ssh",
    b"SSH-2.0-x",
    b"SSH-2.0-nora_ssh_with_a_comment and a longer text that goes on for a while",
    b"SSH-2.0-",
];

#[derive(Clone)]
pub struct Knobs {
    pub conns: (usize, usize),
    pub sessions: (usize, usize),
    pub out_max: usize,
    pub in_max: usize,
    /// Chances in 16.
    pub tight: usize,
    pub early_close: usize,
    pub extras: usize,
    pub refuse: usize,
    pub rough: usize,
    pub proc_rough: usize,
    pub shell: usize,
    pub big: usize,
    pub open_other: usize,
    pub coarse: usize,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            conns: (1, 3),
            sessions: (1, 5),
            out_max: 20_000,
            in_max: 20_000,
            tight: 5,
            early_close: 3,
            extras: 4,
            refuse: 2,
            rough: 11,
            proc_rough: 8,
            shell: 2,
            big: 2,
            open_other: 1,
            coarse: 4,
        }
    }
}

pub struct Sim {
    pub exec: Exec,
    pub world: World,
    pub board: Board,
    pub conns: Vec<Conn>,
    pub ident: &'static [u8],
    pub key: u64,
    pub done: Arc<Mutex<Vec<String>>>,
    pub tasks: Vec<String>,
    pub owners: Arc<Mutex<HashMap<Vec<u8>, Vec<u8>>>>,
    pub constant: Option<u8>,
    /// Some clients start whatever they like.
    pub hostile: bool,
}

pub fn host_point(key: u64) -> Vec<u8> {
    host_key(key).verifying_key().to_encoded_point(false).as_bytes().to_vec()
}

impl Sim {
    pub fn new(r: &mut R) -> Sim {
        let mut exec = Exec::new(r.fork());
        exec.spurious = *r.pick(&[0, 0, 2, 20]);
        let world = World::new(&exec.env, r);
        let ident = *r.pick(IDENTS);
        let key = r.below(6) as u64;
        exec.add(server(&world, ident, key));
        Sim {
            exec,
            world,
            board: Board::default(),
            conns: Vec::new(),
            ident,
            key,
            done: Default::default(),
            tasks: Vec::new(),
            owners: Default::default(),
            constant: None,
            hostile: false,
        }
    }

    /// A new connection over transports with these settings (client to server, server to client).
    pub fn connect(&mut self, r: &mut R, name: &str, up: PipeCfg, down: PipeCfg) -> (Conn, Rd) {
        let (ur, uw) = pipe(&self.world.env, r, up);
        let down = down.maybe_buffered(r);
        let (dr, dw) = pipe(&self.world.env, r, down);
        let (c, mut rd) = Conn::new(&self.world, &self.board, name.into(), r, dr, uw);
        rd.constant = self.constant;
        self.world.connect(ur, dw);
        self.conns.push(c.clone());
        (c, rd)
    }

    /// Run something that must get done.
    pub fn spawn(&mut self, name: &str, f: impl std::future::Future<Output = ()> + Send + 'static) {
        let done = self.done.clone();
        let n = name.to_string();
        self.tasks.push(n.clone());
        self.world.env.spawn(async move {
            f.await;
            done.lock().unwrap().push(n);
        });
    }

    pub fn unfinished(&self) -> Vec<String> {
        let d = self.done.lock().unwrap();
        self.tasks.iter().filter(|t| !d.contains(t)).cloned().collect()
    }

    /// Run until nothing happens anymore and report what is not finished.
    pub fn settle(&mut self, tags: &str) {
        self.run();
        let u = self.unfinished();
        if !u.is_empty() {
            for c in &self.conns {
                let s = c.lock();
                for ch in s.chans.values() {
                    c.env.trace(|| format!(
                        "{} state: channel {} remote {:?} credit {} server window {} out {} err {} sent {} eof {} status {:?} closed by server {} by client {} replies owed {} commands {:?} processes {:?}",
                        c.name, ch.local, ch.remote, ch.credit, ch.swin, ch.out.len(), ch.err.len(), ch.sent.len(), ch.eof, ch.status,
                        ch.server_closed, ch.close_sent, ch.reqs.len(),
                        ch.commands.iter().map(|c| String::from_utf8_lossy(c)).collect::<Vec<_>>(),
                        ch.commands.iter().map(|x| process(&self.world, x).map(|p| (p.out, p.err, p.stdin.len(), p.stdin_eof, p.exited, p.ended))).collect::<Vec<_>>()
                    ));
                }
            }
            let before = self.board.0.lock().unwrap().viol.len();
            for c in self.conns.clone() {
                diagnose(&c);
            }
            let mut b = self.board.0.lock().unwrap();
            let p: Vec<_> = b.pending.values().cloned().collect();
            for (t, x) in p {
                b.viol.push((format!("{},C20", t), format!("stuck: {}", x)));
            }
            if b.viol.len() == before {
                b.viol.push((format!("{},C20", tags), format!("stuck: {:?}", u)));
            }
        }
    }

    pub fn run(&mut self) {
        match self.exec.run() {
            Stop::Quiescent => {}
            Stop::Livelock => self.board.fail("C20", "the server spins without anything to do".into()),
            Stop::TooLong => self.board.fail("C20", "the server does not come to rest".into()),
        }
    }

    /// Verdict for the property `id`.
    pub fn conclude(mut self, ctx: &mut Ctx, id: &str) -> CaseResult {
        let owners = self.owners.clone();
        check_spawns(&self.world, &self.board, self.hostile, &|c| owners.lock().unwrap().get(c).cloned());
        self.exec.shutdown();
        let mut b = self.board.0.lock().unwrap();
        for (k, v) in std::mem::take(&mut b.counters) {
            ctx.count(&k, v);
        }
        for s in std::mem::take(&mut b.sigs) {
            let mut s = s;
            s.extend_from_slice(&self.exec.schedule.to_be_bytes());
            ctx.sig(&s);
        }
        ctx.count("worlds", 1);
        ctx.count("bytes_through_buffered_writers", self.world.env.buffered());
        ctx.count("polls", self.exec.polls);
        ctx.count("server_polls", self.exec.server_polls);
        ctx.count("quiescent_states", self.exec.quiescent);
        let sched = self.exec.schedule;
        ctx.sig(&sched.to_be_bytes());
        let mut mine = Vec::new();
        for (tags, text) in &b.viol {
            if tags.split(',').any(|t| t == id || t == ALL) {
                mine.push(format!("[{}] {}", tags, text));
            } else {
                *ctx.cov.foreign.entry(format!("{}: {}", tags, text.chars().take(300).collect::<String>())).or_insert(0) += 1;
            }
        }
        if mine.is_empty() {
            let env = self.world.env.clone();
            ctx.sample(|| {
                let t = env.dump_trace();
                format!("schedule {:016x}; trace: {}", sched, t)
            });
            Ok(())
        } else {
            Err(format!("{}\n\ntrace:\n{}", mine.join("\n"), self.world.env.dump_trace()))
        }
    }
}

fn size(r: &mut R, max: usize, big: usize) -> usize {
    if r.below(16) < big {
        return r.range(max / 4, max);
    }
    match r.below(6) {
        0 => 0,
        1 => r.range(1, 20),
        2 => *r.pick(&[255, 256, 257, 511, 512, 513, 1024]),
        3 => r.range(1, 3000),
        _ => r.range(1, 700),
    }
    .min(max)
}

fn status(r: &mut R) -> u32 {
    match r.below(4) {
        0 => 0,
        1 => *r.pick(&[1, 127, 128, 255, 256, 0x8000_0000, u32::MAX]),
        _ => r.u32() >> r.below(32),
    }
}

fn gen_outputs(r: &mut R, k: &Knobs, ops: &mut Vec<Op>) {
    let mut total = 0;
    for _ in 0..r.below(6) {
        let n = size(r, k.out_max, k.big).min(k.out_max - total.min(k.out_max));
        total += n;
        match r.below(5) {
            0 => ops.push(Op::Yield(r.range(1, 20))),
            1 | 2 => ops.push(Op::Out(n)),
            _ => ops.push(Op::Err(n)),
        }
    }
}

pub struct Made {
    pub script: Script,
    /// Bytes of input it must at least get before it ends by itself.
    pub input: Vec<u8>,
    pub needs_eof: bool,
}

pub fn gen_script(r: &mut R, k: &Knobs) -> Made {
    let mut ops = Vec::new();
    let mut ops2 = Vec::new();
    let mut has = [true; 3];
    let mut needs_eof = false;
    let n = size(r, k.in_max, k.big);
    let input = r.bytes(n);
    if r.chance(1, 3) {
        ops.push(Op::Yield(r.range(1, 30)));
    }
    match r.below(11) {
        0 | 1 => gen_outputs(r, k, &mut ops),
        2 => {
            ops.push(Op::ReadEof);
            needs_eof = true;
            gen_outputs(r, k, &mut ops);
        }
        3 => {
            ops.push(Op::Echo);
            needs_eof = true;
            if r.chance(1, 2) {
                let mut o = Vec::new();
                gen_outputs(r, k, &mut o);
                ops2 = o.into_iter().filter(|o| !matches!(o, Op::Out(_) | Op::CloseOut)).collect();
            }
        }
        4 | 5 => {
            ops.push(Op::ReadEof);
            needs_eof = true;
            gen_outputs(r, k, &mut ops2);
            gen_outputs(r, k, &mut ops2);
        }
        6 => {
            let m = r.below(input.len() + 1);
            ops.push(Op::Read(m));
            gen_outputs(r, k, &mut ops);
        }
        7 => {
            if r.chance(1, 2) {
                ops.push(Op::Read(input.len() / 2));
            }
            ops.push(Op::CloseIn);
            ops.push(Op::Yield(r.below(40)));
            gen_outputs(r, k, &mut ops);
        }
        8 => {
            has = [r.chance(1, 2), r.chance(1, 2), r.chance(1, 2)];
            gen_outputs(r, k, &mut ops);
            if has[0] && r.chance(1, 2) {
                ops.push(Op::ReadEof);
                needs_eof = true;
            }
        }
        9 => {
            ops.push(Op::StatusEarly(status(r)));
            ops.push(Op::Yield(r.below(20)));
            gen_outputs(r, k, &mut ops);
        }
        _ => {
            // Streams end at different times, long before the process.
            gen_outputs(r, k, &mut ops);
            let first = r.chance(1, 2);
            ops.push(if first { Op::CloseOut } else { Op::CloseErr });
            ops.push(Op::Yield(r.below(20)));
            ops.push(if first { Op::Err(r.below(600)) } else { Op::Out(r.below(600)) });
            if r.chance(1, 2) {
                ops.push(if first { Op::CloseErr } else { Op::CloseOut });
                ops.push(Op::Yield(r.below(30)));
                if r.chance(1, 2) {
                    ops.push(Op::ReadEof);
                    needs_eof = true;
                }
            }
        }
    }
    let cfg = |r: &mut R, k: &Knobs| {
        if r.below(16) < k.proc_rough {
            let mut c = PipeCfg::random(r);
            if k.out_max.max(k.in_max) > 2000 {
                // Many bytes in tiny pieces take long and show nothing new.
                c.rchunk = c.rchunk.max(100);
                c.wchunk = c.wchunk.max(100);
                c.cap = c.cap.max(100);
            }
            c
        } else {
            PipeCfg::smooth()
        }
    };
    let mut cfgs = [cfg(r, k), cfg(r, k), cfg(r, k)];
    for c in &mut cfgs[1..] {
        c.bad_end = r.chance(1, 10);
    }
    Made {
        script: Script {
            has,
            ops,
            ops2,
            status: status(r),
            cfg: cfgs,
            refuse: false,
            delay: *r.pick(&[0, 0, 0, 3, 15]),
            gate: None,
        },
        input,
        needs_eof,
    }
}

fn unsupported(r: &mut R) -> Step {
    let want = r.chance(2, 3);
    let (what, ty, data): (&'static str, Vec<u8>, Vec<u8>) = match r.below(5) {
        0 => {
            let (ty, f) = loop {
                let (ty, f) = wire::gen_session(r);
                if ty != b"exec" && ty != b"shell" {
                    break (ty, f);
                }
            };
            let mut d = wire::session_encode(&ty, &f);
            d.truncate(20000);
            ("an unsupported request", ty, d)
        }
        1 => ("an unknown request", b"nonsense@example.com".to_vec(), {
            let n = r.below(50);
            r.bytes(n)
        }),
        2 => ("a malformed exec", b"exec".to_vec(), vec![0, 0, 0, 9, b'x']),
        3 => ("a malformed shell", b"shell".to_vec(), vec![1]),
        _ => {
            let mut f = Vec::new();
            for s in [&b"LANG"[..], b"C"] {
                crate::crypto::put_str(&mut f, s);
            }
            ("env", b"env".to_vec(), f)
        }
    };
    Step::Req { what, ty, data, want }
}

fn noise(r: &mut R, large: bool) -> Step {
    if large && r.chance(1, 6) {
        // As large as anything the peer has to accept.
        let n = *r.pick(&[32763, 32763, 32000, 16384, 20000]);
        return Step::Message(wire::encode(&wire::Msg { ty: 2, f: vec![wire::F::S(r.bytes(n))] }));
    }
    let n = r.below(300);
    Step::Message(match r.below(3) {
        0 => wire::encode(&wire::Msg { ty: 2, f: vec![wire::F::S(r.bytes(n))] }),
        1 => wire::encode(&wire::Msg { ty: 3, f: vec![wire::F::U(r.u32())] }),
        _ => wire::encode(&wire::Msg {
            ty: 4,
            f: vec![wire::F::B(r.chance(1, 2)), wire::F::S(wire::gen_utf8(r)), wire::F::S(vec![])],
        }),
    })
}

pub struct Names {
    pub conn: usize,
    pub user: Vec<u8>,
    pub next: usize,
    pub shell_used: bool,
}

impl Names {
    pub fn command(&mut self, r: &mut R) -> Vec<u8> {
        self.next += 1;
        let mut v = format!("cmd-{}-{}", self.conn, self.next).into_bytes();
        if r.chance(1, 4) {
            let n = if r.chance(1, 20) { r.range(600, 32000) } else { r.below(600) };
            v.push(b' ');
            v.extend(r.bytes(n));
        }
        v
    }
}

/// A channel with its process.
pub fn gen_plan(r: &mut R, k: &Knobs, w: &World, names: &mut Names, owners: &Mutex<HashMap<Vec<u8>, Vec<u8>>>) -> Plan {
    let mut steps = Vec::new();
    let made = gen_script(r, k);
    let extra = |r: &mut R, steps: &mut Vec<Step>| {
        while r.below(16) < k.extras {
            steps.push(match r.below(4) {
                0 => noise(r, k.out_max > 2000),
                1 => Step::Yield(r.below(15)),
                2 => Step::Replies,
                _ => unsupported(r),
            });
        }
    };
    let own = |key: &[u8], names: &Names| {
        owners.lock().unwrap().insert(key.to_vec(), names.user.clone());
    };
    extra(r, &mut steps);
    // Attempts that the application refuses.
    while r.below(16) < k.refuse {
        let c = names.command(r);
        own(&c, names);
        if r.chance(1, 2) {
            let mut s = made.script.clone();
            s.refuse = true;
            w.s.lock().unwrap().scripts.insert(c.clone(), s);
        }
        steps.push(Step::Start { command: Some(c.clone()), key: c, want: r.chance(2, 3) });
        extra(r, &mut steps);
    }
    let start = r.chance(14, 15);
    let mut close = None;
    if start {
        let shell = !names.shell_used && r.below(16) < k.shell;
        let key = if shell {
            names.shell_used = true;
            [b"shell:", &names.user[..]].concat()
        } else {
            names.command(r)
        };
        own(&key, names);
        w.s.lock().unwrap().scripts.insert(key.clone(), made.script.clone());
        // Input may precede the start.
        let mut rest = &made.input[..];
        let mut eof = false;
        if r.chance(1, 6) {
            let n = match r.below(3) {
                0 => rest.len(),
                _ => r.below(rest.len() + 1),
            }
            .min(40_000);
            if n > 0 {
                steps.push(Step::Data(rest[..n].to_vec()));
                rest = &rest[n..];
            }
            if rest.is_empty() && r.chance(1, 2) {
                eof = true;
                steps.push(Step::Eof);
            }
            extra(r, &mut steps);
        }
        steps.push(Step::Start { command: (!shell).then(|| key.clone()), key, want: r.chance(3, 4) });
        let from = steps.len();
        if r.chance(1, 2) {
            steps.push(Step::Replies);
        }
        extra(r, &mut steps);
        if r.below(16) < k.extras {
            // A second process on the same channel.
            let shell = !names.shell_used && r.chance(1, 3);
            let c = if shell {
                names.shell_used = true;
                [b"shell:", &names.user[..]].concat()
            } else {
                names.command(r)
            };
            own(&c, names);
            let mut s = gen_script(r, k).script;
            s.gate = None;
            w.s.lock().unwrap().scripts.insert(c.clone(), s);
            steps.push(Step::Start { command: (!shell).then(|| c.clone()), key: c, want: true });
        }
        if r.below(16) < k.early_close {
            close = Some(r.below(8));
        }
        // Input, in pieces.
        while !rest.is_empty() {
            let n = if r.chance(1, 2) { rest.len() } else { r.range(1, rest.len()) };
            steps.push(Step::Data(rest[..n].to_vec()));
            rest = &rest[n..];
            extra(r, &mut steps);
            if r.below(32) < k.extras {
                steps.push(Step::ExtData(r.range(1, 3000)));
            }
        }
        if !eof && (made.needs_eof || r.chance(1, 2)) {
            steps.push(Step::Eof);
        }
        extra(r, &mut steps);
        if let Some(n) = close {
            let i = r.range(from, steps.len());
            steps.truncate(i);
            match n {
                0..=3 => steps.push(Step::Yield(r.below(60))),
                4 if !made.script.ops.iter().any(|o| matches!(o, Op::Read(_) | Op::ReadEof | Op::Echo)) => {
                    steps.push(Step::Output(r.below(3000)))
                }
                _ => {}
            }
            steps.push(Step::Close);
        }
    } else {
        if r.chance(1, 3) {
            steps.push(Step::Data(made.input[..made.input.len().min(3000)].to_vec()));
        }
        steps.push(Step::Replies);
        steps.push(Step::Close);
    }
    let mut late = Vec::new();
    if r.chance(1, 4) {
        late.push(match r.below(4) {
            0 => Step::Eof,
            1 => noise(r, false),
            2 => Step::Data(r.bytes(20)),
            _ => unsupported(r),
        });
    }
    let tight = r.below(16) < k.tight;
    let (window, below, grant) = if tight {
        let w = *r.pick(&[0u32, 0, 1, 2, 100, 255, 256, 257, 1000]);
        (w, *r.pick(&[0u64, 0, 1, 100]), *r.pick(&[(1, 1), (1, 300), (200, 5000), (256, 256), (1, 100_000)]))
    } else {
        match r.below(3) {
            0 => (u32::MAX, 0, (1, 1)),
            1 => (1 << 21, 1 << 20, (1, 1 << 21)),
            _ => (r.range(1, 100_000) as u32, 2000, (1000, 100_000)),
        }
    };
    let small = k.out_max <= 2000;
    let maxpkt = if tight || r.chance(1, 6) {
        if small {
            *r.pick(&[1u32, 2, 7, 100, 255, 256, 257, 400])
        } else {
            *r.pick(&[100, 255, 256, 257, 400])
        }
    } else {
        *r.pick(&[32768, 1 << 15, 1 << 20, u32::MAX, 35000])
    };
    // Nothing at all may be sent.
    let maxpkt = if tight && matches!(steps.last(), Some(Step::Close)) && !steps.iter().any(|s| matches!(s, Step::Output(_))) && r.chance(1, 3) { 0 } else { maxpkt };
    let mut plan = Plan {
        local: 0,
        window,
        maxpkt,
        steps,
        below,
        grant,
        lazy: *r.pick(&[0, 0, 3, 20]),
        never: false,
        excess: false,
        full: r.chance(1, 4),
        late,
        late_yield: *r.pick(&[0, 0, 10]),
        open_ty: b"session".to_vec(),
    };
    if !small && plan.grant.1 < 256 {
        plan.grant = (1, 2000);
    }
    plan.excess = plan.window > 0 && plan.window < 1000 && r.chance(1, 12);
    if r.below(32) < k.open_other {
        plan.open_ty = r.pick(&[&b"x11"[..], b"forwarded", b"", b"sessionx", b"sessio"]).to_vec();
    }
    plan
}

pub fn transport(r: &mut R, k: &Knobs) -> (PipeCfg, PipeCfg) {
    let f = |r: &mut R| {
        if r.below(16) < k.rough {
            let mut c = PipeCfg::random(r);
            if k.out_max.max(k.in_max) > 2000 {
                c.rchunk = c.rchunk.max(300);
                c.wchunk = c.wchunk.max(300);
                c.cap = c.cap.max(300);
            }
            c
        } else {
            PipeCfg::smooth()
        }
    };
    (f(r), f(r))
}

/// How a client leaves.
#[derive(Clone, Copy)]
pub enum Leave {
    Disconnect,
    Finish,
    Abort,
    Stay,
}

pub async fn run_sessions(c: Conn, plans: Vec<Plan>, parallel: usize, mut r: R) {
    let mut left = plans.into_iter();
    let mut running = futures::stream::FuturesUnordered::new();
    loop {
        while running.len() < parallel {
            let Some(mut p) = left.next() else { break };
            // Numbers are reused as soon as they are free.
            p.local = loop {
                let n = match r.below(4) {
                    0 => r.u32(),
                    1 => *r.pick(&[u32::MAX, 0x8000_0000, 256]),
                    _ => r.below(6.max(2 * parallel)) as u32,
                };
                if !c.lock().chans.contains_key(&n) {
                    break n;
                }
            };
            running.push(session(c.clone(), p));
        }
        if running.is_empty() {
            return;
        }
        running.next().await;
    }
}

pub async fn leave(c: &Conn, how: Leave) {
    match how {
        Leave::Disconnect => {
            c.lock().expect_end = true;
            c.send(&wire::encode(&wire::Msg { ty: 1, f: vec![wire::F::U(11), wire::F::S(b"bye".to_vec()), wire::F::S(vec![])] }));
        }
        Leave::Finish => {
            c.lock().expect_end = true;
            c.finish();
        }
        Leave::Abort => {
            c.drained().await;
            c.abort()
        }
        Leave::Stay => {}
    }
}

/// A whole client: handshake, login, sessions.
pub async fn behave(c: Conn, mut rd: Rd, hs: Hs, point: Vec<u8>, ident: &'static [u8], user: Vec<u8>, plans: Vec<Plan>, parallel: usize, r: R, how: Leave) {
    match handshake(&c, &mut rd, &hs, &point, ident).await {
        Ok(_) => {}
        Err(seen) => {
            c.fail(ALL, format!("handshake of a client that behaves failed: {:?}", seen));
            c.abort();
            return;
        }
    }
    if let Err(e) = login(&c, &mut rd, &user).await {
        c.fail(ALL, format!("login failed: {:?}", e));
        c.abort();
        return;
    }
    c.env.spawn(reader(c.clone(), rd));
    run_sessions(c.clone(), plans, parallel, r).await;
    leave(&c, how).await;
    c.board.count("clients_finished", 1);
}

/// Add a client that behaves.
pub fn add_client(sim: &mut Sim, r: &mut R, k: &Knobs, n: usize) -> Conn {
    let user = if r.chance(1, 8) { format!("user{}\u{e9}\u{0}", n).into_bytes() } else { format!("user{}", n).into_bytes() };
    add_as(sim, r, k, &format!("client{}", n), user)
}

pub fn add_named_client(sim: &mut Sim, r: &mut R, k: &Knobs, name: &str) -> Conn {
    add_as(sim, r, k, name, format!("user-{}", name).into_bytes())
}

fn add_as(sim: &mut Sim, r: &mut R, k: &Knobs, name: &str, user: Vec<u8>) -> Conn {
    let n = sim.conns.len();
    let mut k = k.clone();
    // Either few bytes in tiny pieces or more bytes in larger ones.
    if r.below(16) >= k.coarse {
        k.out_max = k.out_max.min(1500);
        k.in_max = k.in_max.min(1500);
    }
    let k = &k;
    let (up, down) = transport(r, k);
    let (c, rd) = sim.connect(r, name, up, down);
    let mut names = Names { conn: n, user: user.clone(), next: 0, shell_used: false };
    let m = r.range(k.sessions.0, k.sessions.1);
    let plans: Vec<Plan> = (0..m).map(|_| gen_plan(r, k, &sim.world, &mut names, &sim.owners)).collect();
    let parallel = r.range(1, 5);
    let hs = if r.chance(1, 4) { Hs::random(r) } else { Hs::plain(r) };
    let how = *r.pick(&[Leave::Disconnect, Leave::Finish, Leave::Abort, Leave::Stay]);
    let (point, ident) = (host_point(sim.key), sim.ident);
    let f = behave(c.clone(), rd, hs, point, ident, user, plans, parallel, r.fork(), how);
    sim.spawn(name, f);
    c
}

/// Very many channels, at once or one after the other.
pub fn crowd(ctx: &mut Ctx, id: &str, k: &Knobs) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let mut sim = Sim::new(r);
    let at_once = r.chance(2, 3);
    let n = if r.chance(1, 3) || !at_once { r.range(260, 420) } else { r.range(10, 120) };
    let k = Knobs { out_max: 300, in_max: 300, big: 0, tight: 2, extras: k.extras.min(3), rough: 4, ..k.clone() };
    let (up, down) = transport(r, &k);
    let (c, rd) = sim.connect(r, "crowd", up, down);
    let user = b"user".to_vec();
    let mut names = Names { conn: 0, user: user.clone(), next: 0, shell_used: false };
    let plans: Vec<Plan> = (0..n).map(|_| gen_plan(r, &k, &sim.world, &mut names, &sim.owners)).collect();
    let parallel = if at_once { n } else { r.range(1, 6) };
    if at_once {
        for s in sim.world.s.lock().unwrap().scripts.values_mut() {
            if r.chance(7, 8) {
                s.ops.insert(0, Op::Gate("crowd".into()));
            }
        }
    }
    let (hs, point, ident, rr) = (Hs::plain(r), host_point(sim.key), sim.ident, r.fork());
    let how = *r.pick(&[Leave::Disconnect, Leave::Finish, Leave::Abort, Leave::Stay]);
    sim.spawn("crowd", behave(c.clone(), rd, hs, point, ident, user, plans, parallel, rr, how));
    if r.chance(1, 2) {
        add_client(&mut sim, r, &k, 1);
    }
    if at_once {
        sim.run();
        let open = c.lock().chans.len() as u64;
        ctx.cov.counters.entry("most_channels_at_once".into()).and_modify(|v| *v = (*v).max(open)).or_insert(open);
        sim.world.env.open_gate("crowd");
    }
    ctx.count("crowds", 1);
    sim.settle("C14,C15,C16,C17,C18,C19,C21");
    sim.conclude(ctx, id)
}

pub fn workload(ctx: &mut Ctx, id: &str, k: &Knobs) -> CaseResult {
    if ctx.case % 250 == 7 {
        return crowd(ctx, id, k);
    }
    let mut r = ctx.r.fork();
    let mut sim = Sim::new(&mut r);
    let n = r.range(k.conns.0, k.conns.1);
    for i in 0..n {
        add_client(&mut sim, &mut r, k, i);
    }
    sim.settle("C14,C15,C16,C17,C18,C21");
    sim.conclude(ctx, id)
}

/// Much more data than the server's window, in both directions.
pub fn bulk(ctx: &mut Ctx, id: &str) -> CaseResult {
    let mut r = ctx.r.fork();
    let mut sim = Sim::new(&mut r);
    let coarse = |r: &mut R| {
        let mut c = PipeCfg::smooth();
        c.rchunk = r.range(3000, 60_000);
        c.wchunk = r.range(3000, 60_000);
        c.cap = r.range(5000, 200_000);
        c
    };
    let (up, down) = (coarse(&mut r), coarse(&mut r));
    let (c, rd) = sim.connect(&mut r, "client", up, down);
    let n = r.range(2_200_000, 5_000_000);
    let cmd = b"bulk".to_vec();
    let out = r.range(0, 300_000);
    let kind = r.below(if id == "C15" { 6 } else { 9 });
    let gate = || Op::Gate("sent".into());
    let script = Script {
        has: [kind != 0, true, true],
        ops: match kind {
            // Nobody reads the input.
            0 => vec![gate(), Op::Err(10)],
            1 => vec![Op::Yield(r.below(300)), Op::CloseIn, gate(), Op::Err(10)],
            2 => vec![Op::Yield(r.below(4000)), Op::Read(n / 2), Op::CloseIn, gate(), Op::Err(10)],
            3 => vec![Op::Yield(r.below(4000)), Op::Echo, Op::Err(10)],
            // The channel is closed by the server or the client while data for it is on its way.
            6 => vec![Op::Out(r.below(2000))],
            7 => vec![Op::Echo],
            _ => vec![Op::Yield(r.below(4000)), Op::ReadEof, Op::Err(10)],
        },
        ops2: vec![Op::Err(out)],
        status: 9,
        cfg: [coarse(&mut r), coarse(&mut r), coarse(&mut r)],
        refuse: false,
        delay: 0,
        gate: None,
    };
    sim.owners.lock().unwrap().insert(cmd.clone(), b"user".to_vec());
    sim.world.s.lock().unwrap().scripts.insert(cmd.clone(), script);
    let plan = Plan {
        local: 1,
        window: 100_000,
        maxpkt: 32768,
        steps: {
            let mut v = vec![Step::Start { command: Some(cmd.clone()), key: cmd, want: true }];
            let data = r.bytes(n);
            if kind == 6 {
            } else if kind == 7 || kind == 8 {
                let n = if r.chance(1, 2) { (1 << 20) + r.below(40_000) } else { r.range(1 << 20, n) };
                v.extend([Step::Data(data[..n].to_vec()), Step::Close]);
            } else if r.chance(1, 3) {
                // Extended data counts as well.
                let (a, b) = data.split_at(r.below(n));
                v.extend([Step::Data(a.to_vec()), Step::ExtData(2_500_000), Step::Data(b.to_vec())]);
            } else {
                v.push(Step::Data(data));
            }
            if kind < 6 {
                v.extend([Step::OpenGate("sent".into()), Step::Eof]);
            }
            v
        },
        below: 50_000,
        grant: (50_000, 2_000_000),
        lazy: 0,
        never: false,
        excess: false,
        full: r.chance(2, 3),
        late: if kind == 6 { vec![Step::ExtData(r.range(1 << 20, 2_000_000))] } else { vec![] },
        late_yield: 0,
        open_ty: b"session".to_vec(),
    };
    let (hs, point, ident, rr) = (Hs::plain(&mut r), host_point(sim.key), sim.ident, r.fork());
    sim.spawn("client", behave(c, rd, hs, point, ident, b"user".to_vec(), vec![plan], 1, rr, Leave::Disconnect));
    sim.settle("C15,C17,C18,C21");
    ctx.count("bulk_transfers", 1);
    if kind >= 6 {
        ctx.count("bulk_transfers_closed", 1);
    }
    sim.conclude(ctx, id)
}
