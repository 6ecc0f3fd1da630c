//! Deterministic simulation the real server runs in: an executor that polls only tasks that were
//! woken, in an order chosen by the case's random generator, in-memory transports that fragment,
//! delay, push back and fail, simulated processes and an application (handlers) that records every
//! call. Nothing here knows how the server works; everything is observed at its public boundary.

use crate::alloc::{track, Untracked};
use crate::entropy::SrvRng;
use crate::rng::{mix, R};
use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use nora_ssh::auth::Auth;
use nora_ssh::cipher::ChaCha20Poly1305;
use nora_ssh::server::{IoSet, Server, ServerHandlers, SpawnType};
use nora_ssh::Identifier;
use std::collections::{HashMap, HashSet, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;

// ---------------------------------------------------------------- environment

#[derive(Default)]
struct EnvState {
    /// Events that will happen at some later point chosen by the scheduler.
    deferred: Vec<Waker>,
    spawn: Vec<BoxFut>,
    /// Bumped whenever something observable happens.
    activity: u64,
    gates: HashSet<String>,
    gate_wakers: Vec<Waker>,
    trace: HashMap<String, VecDeque<(u64, String, u64)>>,
    lines: u64,
    /// Number of polls of the server so far.
    turn: u64,
    /// What never paused within one of them.
    unfair: Option<String>,
    /// Bytes that buffered writers of the application passed on.
    buffered: u64,
}

#[derive(Clone, Default)]
pub struct Env(Arc<Mutex<EnvState>>);

impl Env {
    pub fn defer(&self, w: &Waker) {
        let _g = track(false);
        self.0.lock().unwrap().deferred.push(w.clone());
    }
    pub fn spawn(&self, f: impl Future<Output = ()> + Send + 'static) {
        let _g = track(false);
        self.0.lock().unwrap().spawn.push(Box::pin(f));
    }
    pub fn turn(&self) -> u64 {
        self.0.lock().unwrap().turn
    }
    pub fn unfair(&self) -> Option<String> {
        self.0.lock().unwrap().unfair.clone()
    }
    pub fn buffered(&self) -> u64 {
        self.0.lock().unwrap().buffered
    }
    pub fn active(&self) {
        self.0.lock().unwrap().activity += 1;
    }
    /// Give up control `n` times.
    pub async fn yields(&self, n: usize) {
        for _ in 0..n {
            let mut first = true;
            futures::future::poll_fn(|cx| {
                if std::mem::take(&mut first) {
                    self.defer(cx.waker());
                    Poll::Pending
                } else {
                    Poll::Ready(())
                }
            })
            .await
        }
    }
    pub fn open_gate(&self, name: &str) {
        let _g = track(false);
        let mut s = self.0.lock().unwrap();
        s.gates.insert(name.to_string());
        s.activity += 1;
        for w in std::mem::take(&mut s.gate_wakers) {
            w.wake();
        }
    }
    pub async fn gate(&self, name: &str) {
        futures::future::poll_fn(|cx| {
            let mut s = self.0.lock().unwrap();
            if s.gates.contains(name) {
                Poll::Ready(())
            } else {
                s.gate_wakers.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
    /// Lines are kept per actor (first word); runs of data and window messages are folded.
    pub fn trace(&self, f: impl FnOnce() -> String) {
        let _g = track(false);
        let mut s = self.0.lock().unwrap();
        s.lines += 1;
        let n = s.lines;
        let t = f();
        let who = t.split(' ').next().unwrap_or("").to_string();
        let q = s.trace.entry(who).or_default();
        if q.len() >= 200 {
            q.remove(60);
        }
        let bulk = |t: &str| ["msg 94 ", "msg 95 ", "msg 93 "].iter().any(|m| t.contains(m));
        if let Some(l) = q.back_mut() {
            if bulk(&l.1) && bulk(&t) {
                l.2 += 1;
                return;
            }
        }
        q.push_back((n, t, 0));
    }
    pub fn dump_trace(&self) -> String {
        let s = self.0.lock().unwrap();
        let mut v: Vec<&(u64, String, u64)> = s.trace.values().flatten().collect();
        v.sort();
        v.iter()
            .map(|(n, t, k)| if *k > 0 { format!("{} {} (+{} data/window messages)", n, t, k) } else { format!("{} {}", n, t) })
            .collect::<Vec<_>>()
            .join("\n")
    }
}

// ---------------------------------------------------------------- executor

#[derive(Default)]
struct ReadyState {
    queue: Vec<usize>,
    flag: Vec<bool>,
}

struct TaskWaker {
    id: usize,
    ready: Arc<Mutex<ReadyState>>,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let _g = track(false);
        let mut r = self.ready.lock().unwrap();
        if !r.flag[self.id] {
            r.flag[self.id] = true;
            r.queue.push(self.id);
        }
    }
}

type LocalFut = Pin<Box<dyn Future<Output = ()>>>;

pub struct Exec {
    pub env: Env,
    tasks: Vec<Option<(LocalFut, Waker)>>,
    ready: Arc<Mutex<ReadyState>>,
    r: R,
    /// Chance in 16 that a deferred event happens although tasks are ready.
    eager: usize,
    pub polls: u64,
    pub server_polls: u64,
    pub quiescent: u64,
    /// Hash of the schedule.
    pub schedule: u64,
    /// Chance in 256 of a spurious poll per step.
    pub spurious: usize,
}

#[derive(Debug, PartialEq)]
pub enum Stop {
    Quiescent,
    Livelock,
    TooLong,
}

impl Exec {
    pub fn new(mut r: R) -> Self {
        let eager = *r.pick(&[1, 4, 8, 12, 15]);
        Exec {
            env: Env::default(),
            tasks: Vec::new(),
            ready: Default::default(),
            r,
            eager,
            polls: 0,
            server_polls: 0,
            quiescent: 0,
            schedule: 0,
            spurious: 0,
        }
    }

    pub fn add(&mut self, f: LocalFut) -> usize {
        let id = self.tasks.len();
        {
            let mut r = self.ready.lock().unwrap();
            r.flag.push(true);
            r.queue.push(id);
        }
        let w = Waker::from(Arc::new(TaskWaker { id, ready: self.ready.clone() }));
        self.tasks.push(Some((f, w)));
        id
    }

    fn take_spawned(&mut self) {
        let v = std::mem::take(&mut self.env.0.lock().unwrap().spawn);
        for f in v {
            self.add(f);
        }
    }

    /// Run until nothing can happen anymore. Task 0 is the server.
    pub fn run(&mut self) -> Stop {
        let mut last_activity = u64::MAX;
        let mut idle_server_polls = 0u64;
        let start = self.polls;
        loop {
            self.take_spawned();
            let nready = self.ready.lock().unwrap().queue.len();
            let ndef = self.env.0.lock().unwrap().deferred.len();
            if nready == 0 && ndef == 0 {
                self.quiescent += 1;
                return Stop::Quiescent;
            }
            if ndef > 0 && (nready == 0 || self.r.below(16) < self.eager) {
                let w = {
                    let mut s = self.env.0.lock().unwrap();
                    let i = self.r.below(s.deferred.len());
                    s.activity += 1;
                    s.deferred.swap_remove(i)
                };
                w.wake();
                continue;
            }
            let id = {
                let mut r = self.ready.lock().unwrap();
                let i = self.r.below(r.queue.len());
                let id = r.queue.swap_remove(i);
                r.flag[id] = false;
                id
            };
            let mut id = id;
            if self.spurious > 0 && self.r.below(256) < self.spurious {
                // Polls that nobody asked for are allowed; the task that was chosen stays ready.
                let other = self.r.below(self.tasks.len());
                let mut r = self.ready.lock().unwrap();
                if !r.flag[id] {
                    r.flag[id] = true;
                    r.queue.push(id);
                }
                id = other;
            }
            if let Some((f, w)) = self.tasks[id].as_mut() {
                let w = w.clone();
                self.polls += 1;
                if id == 0 {
                    self.server_polls += 1;
                    self.env.0.lock().unwrap().turn += 1;
                }
                self.schedule = mix(self.schedule ^ id as u64);
                let done = {
                    let _g = track(id == 0);
                    f.as_mut().poll(&mut Context::from_waker(&w)).is_ready()
                };
                if done {
                    self.tasks[id] = None;
                }
            }
            let act = self.env.0.lock().unwrap().activity;
            if act != last_activity || id != 0 {
                last_activity = act;
                idle_server_polls = 0;
            } else {
                idle_server_polls += 1;
                if idle_server_polls > 5000 {
                    return Stop::Livelock;
                }
            }
            if self.polls - start > 20_000_000 {
                return Stop::TooLong;
            }
        }
    }

    /// Poll everything once although nothing happened.
    pub fn nudge(&mut self) {
        let mut r = self.ready.lock().unwrap();
        for id in 0..self.tasks.len() {
            if !r.flag[id] {
                r.flag[id] = true;
                r.queue.push(id);
            }
        }
    }

    /// Drop everything, server first.
    pub fn shutdown(&mut self) {
        for t in self.tasks.iter_mut() {
            *t = None;
        }
    }
}

// ---------------------------------------------------------------- pipes

#[derive(Clone, Debug)]
pub struct PipeCfg {
    /// Largest amount returned by a read / taken by a write; a smaller amount is picked at random.
    pub rchunk: usize,
    pub wchunk: usize,
    /// Chance in 16 of a delay although data or space is available.
    pub rdelay: usize,
    pub wdelay: usize,
    pub cap: usize,
    /// Fail after this many bytes.
    pub rfail: Option<u64>,
    pub wfail: Option<u64>,
    /// The reader gets an error instead of the end of file.
    pub bad_end: bool,
    /// There are always so many bytes to read, whatever is written.
    pub endless: usize,
    /// The writer keeps what it is given until it is full or flushed.
    pub buffered: Option<usize>,
}

impl PipeCfg {
    pub fn smooth() -> Self {
        PipeCfg { rchunk: 1 << 20, wchunk: 1 << 20, rdelay: 0, wdelay: 0, cap: 1 << 20, rfail: None, wfail: None, bad_end: false, endless: 0, buffered: None }
    }
    pub fn random(r: &mut R) -> Self {
        let chunk = |r: &mut R| match r.below(6) {
            0 => 1,
            1 => r.range(1, 8),
            2 => r.range(1, 40),
            3 => r.range(100, 2000),
            _ => 1 << 20,
        };
        PipeCfg {
            rchunk: chunk(r),
            wchunk: chunk(r),
            rdelay: *r.pick(&[0, 0, 2, 6, 10]),
            wdelay: *r.pick(&[0, 0, 2, 6, 10]),
            cap: match r.below(6) {
                0 => r.range(1, 16),
                1 => r.range(16, 200),
                2 => r.range(200, 5000),
                _ => 1 << 20,
            },
            rfail: None,
            wfail: None,
            bad_end: false,
            endless: 0,
            buffered: None,
        }
    }
    /// Sometimes a writer as applications put around transports to save calls.
    pub fn maybe_buffered(mut self, r: &mut R) -> Self {
        if r.chance(1, 4) {
            self.buffered = Some(*r.pick(&[1, 64, 1024, 8192]));
        }
        self
    }
}

pub struct PipeState {
    buf: VecDeque<u8>,
    /// Kept by the writer. Lost if it is dropped.
    held: Vec<u8>,
    cfg: PipeCfg,
    r: R,
    pub wclosed: bool,
    pub rclosed: bool,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    pub read: u64,
    pub written: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub blocked_writes: u64,
    /// Set while the reader side must not make progress.
    pub stalled: bool,
    /// Always something to read, for as long as this returns something.
    pub source: Option<Box<dyn FnMut() -> Option<Vec<u8>> + Send>>,
    /// Always room: what is written vanishes.
    pub sink: bool,
    /// Operations and bytes within one poll of the server.
    burst: (u64, u64, u64),
}

/// More operations or bytes than this within one poll of the server keep all others waiting.
const BURST_OPS: u64 = 40_000;
const BURST_BYTES: u64 = 16 << 20;

impl PipeState {
    /// Whether the server has gone on for too long without letting others have a turn.
    fn too_long(&mut self, env: &Env, n: usize, what: &str) -> bool {
        let turn = env.turn();
        if self.burst.0 != turn {
            self.burst = (turn, 0, 0);
        }
        self.burst.1 += 1;
        self.burst.2 += n as u64;
        let bad = self.burst.1 > BURST_OPS || self.burst.2 > BURST_BYTES;
        if bad {
            self.source = None;
            self.sink = false;
            env.0.lock().unwrap().unfair = Some(format!("{} bytes in {} operations {} without giving others a turn", self.burst.2, self.burst.1, what));
        }
        bad
    }
}

#[derive(Clone)]
pub struct Pipe {
    pub s: Arc<Mutex<PipeState>>,
    env: Env,
}

pub struct PipeR(pub Pipe);
pub struct PipeW(pub Pipe);

impl Drop for PipeR {
    fn drop(&mut self) {
        let w = {
            let mut s = self.0.s.lock().unwrap();
            s.rclosed = true;
            s.rwaker = None;
            s.buf = VecDeque::new();
            s.wwaker.take()
        };
        self.0.env.active();
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl Drop for PipeW {
    fn drop(&mut self) {
        let w = {
            let mut s = self.0.s.lock().unwrap();
            s.wclosed = true;
            s.wwaker = None;
            s.rwaker.take()
        };
        self.0.env.active();
        if let Some(w) = w {
            w.wake()
        }
    }
}

pub fn pipe(env: &Env, r: &mut R, cfg: PipeCfg) -> (PipeR, PipeW) {
    let mut left = cfg.endless;
    let source: Option<Box<dyn FnMut() -> Option<Vec<u8>> + Send>> = if left == 0 {
        None
    } else {
        Some(Box::new(move || {
            let n = left.min(8192);
            left -= n;
            (n > 0).then(|| vec![b'y'; n])
        }))
    };
    let p = Pipe {
        s: Arc::new(Mutex::new(PipeState {
            buf: VecDeque::new(),
            held: Vec::new(),
            cfg,
            r: r.fork(),
            wclosed: false,
            rclosed: false,
            rwaker: None,
            wwaker: None,
            read: 0,
            written: 0,
            short_reads: 0,
            short_writes: 0,
            blocked_writes: 0,
            stalled: false,
            source,
            sink: false,
            burst: (0, 0, 0),
        })),
        env: env.clone(),
    };
    (PipeR(p.clone()), PipeW(p))
}

impl Pipe {
    pub fn set_stalled(&self, v: bool) {
        let w = {
            let mut s = self.s.lock().unwrap();
            s.stalled = v;
            s.rwaker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}

impl AsyncRead for PipeR {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<io::Result<usize>> {
        let _g = track(false);
        let mut s = self.0.s.lock().unwrap();
        if s.stalled {
            s.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if out.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if s.cfg.rfail.map_or(false, |n| s.read >= n) {
            drop(s);
            self.0.env.active();
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if s.buf.is_empty() && s.source.is_some() {
            match s.source.as_mut().unwrap()() {
                Some(b) => s.buf.extend(b),
                None => s.source = None,
            }
        }
        if s.buf.is_empty() {
            if s.wclosed {
                if s.cfg.bad_end {
                    return Poll::Ready(Err(io::ErrorKind::Other.into()));
                }
                return Poll::Ready(Ok(0));
            }
            s.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let d = s.cfg.rdelay;
        if d > 0 && s.r.below(16) < d {
            drop(s);
            self.0.env.defer(cx.waker());
            return Poll::Pending;
        }
        let mut n = out.len().min(s.buf.len());
        if let Some(f) = s.cfg.rfail {
            n = n.min((f - s.read) as usize);
        }
        if n > s.cfg.rchunk {
            let c = s.cfg.rchunk;
            n = s.r.range(1, c);
            s.short_reads += 1;
        }
        for (o, b) in out.iter_mut().zip(s.buf.drain(..n)) {
            *o = b;
        }
        s.read += n as u64;
        if s.source.is_some() {
            s.too_long(&self.0.env, n, "were read");
        }
        let w = s.wwaker.take();
        drop(s);
        self.0.env.active();
        if let Some(w) = w {
            w.wake()
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for PipeW {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let _g = track(false);
        let max = self.0.s.lock().unwrap().cfg.buffered;
        if let Some(max) = max {
            if self.0.s.lock().unwrap().held.len() >= max {
                match self.pass_held(cx) {
                    Poll::Ready(Ok(())) => {}
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                }
            }
            let mut s = self.0.s.lock().unwrap();
            if !s.rclosed && s.cfg.wfail.map_or(true, |n| s.written < n) && !s.sink {
                let n = data.len().min(max);
                s.held.extend(&data[..n]);
                drop(s);
                self.0.env.active();
                return Poll::Ready(Ok(n));
            }
        }
        self.write_now(cx, data)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _g = track(false);
        self.pass_held(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _g = track(false);
        match self.pass_held(cx) {
            Poll::Ready(Ok(())) => {}
            other => return other,
        }
        let w = {
            let mut s = self.0.s.lock().unwrap();
            s.wclosed = true;
            s.rwaker.take()
        };
        self.0.env.active();
        if let Some(w) = w {
            w.wake()
        }
        Poll::Ready(Ok(()))
    }
}

impl PipeW {
    /// Let go of what a buffered writer kept.
    fn pass_held(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        loop {
            let held = std::mem::take(&mut self.0.s.lock().unwrap().held);
            if held.is_empty() {
                return Poll::Ready(Ok(()));
            }
            let ret = self.write_now(cx, &held);
            let n = match &ret {
                Poll::Ready(Ok(n)) => *n,
                _ => 0,
            };
            self.0.env.0.lock().unwrap().buffered += n as u64;
            let mut s = self.0.s.lock().unwrap();
            s.held = held;
            s.held.drain(..n);
            match ret {
                Poll::Ready(Ok(_)) => {}
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            }
        }
    }

    fn write_now(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.s.lock().unwrap();
        if s.rclosed {
            drop(s);
            self.0.env.active();
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if s.cfg.wfail.map_or(false, |n| s.written >= n) {
            drop(s);
            self.0.env.active();
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if s.sink {
            s.written += data.len() as u64;
            s.too_long(&self.0.env, data.len(), "were written");
            drop(s);
            self.0.env.active();
            return Poll::Ready(Ok(data.len()));
        }
        let space = s.cfg.cap.saturating_sub(s.buf.len());
        if space == 0 {
            s.blocked_writes += 1;
            s.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let d = s.cfg.wdelay;
        if d > 0 && s.r.below(16) < d {
            drop(s);
            self.0.env.defer(cx.waker());
            return Poll::Pending;
        }
        let mut n = data.len().min(space);
        if let Some(f) = s.cfg.wfail {
            n = n.min((f - s.written) as usize);
        }
        if n > s.cfg.wchunk {
            let c = s.cfg.wchunk;
            n = s.r.range(1, c);
        }
        if n < data.len() {
            s.short_writes += 1;
        }
        s.buf.extend(&data[..n]);
        s.written += n as u64;
        let w = s.rwaker.take();
        drop(s);
        self.0.env.active();
        if let Some(w) = w {
            w.wake()
        }
        Poll::Ready(Ok(n))
    }
}

// ---------------------------------------------------------------- processes

#[derive(Clone, Debug)]
pub enum Op {
    Out(usize),
    Err(usize),
    CloseOut,
    CloseErr,
    CloseIn,
    /// Read until that many bytes were read in total, or end of file.
    Read(usize),
    ReadEof,
    /// Copy input to output until end of file.
    Echo,
    Yield(usize),
    Gate(String),
    /// The exit status becomes known while the streams stay open.
    StatusEarly(u32),
    /// Never continue.
    Hang,
}

#[derive(Clone, Debug)]
pub struct Script {
    /// Whether stdin, stdout and stderr are provided.
    pub has: [bool; 3],
    pub ops: Vec<Op>,
    /// A second thread of the process that does these.
    pub ops2: Vec<Op>,
    pub status: u32,
    pub cfg: [PipeCfg; 3],
    /// Starting the process fails.
    pub refuse: bool,
    pub delay: usize,
    pub gate: Option<String>,
}

pub struct Proc {
    pub id: u64,
    pub user: u64,
    pub command: Vec<u8>,
    pub shell: bool,
    pub stdin: Vec<u8>,
    pub stdin_eof: bool,
    /// Bytes the process wrote.
    pub out: u64,
    pub err: u64,
    pub echoed: bool,
    pub out_broken: bool,
    pub exited: Option<u32>,
    pub ended: bool,
    exit_waker: Option<Waker>,
    /// Where the server holds the other end.
    pub pipes: [Option<Pipe>; 3],
    /// The server holds the future that waits for the exit.
    pub waited: bool,
}

impl Proc {
    /// What the server still holds of this process.
    pub fn held(&self) -> Vec<&'static str> {
        let mut v = Vec::new();
        if self.pipes[0].as_ref().map_or(false, |p| !p.s.lock().unwrap().wclosed) {
            v.push("standard input");
        }
        if self.pipes[1].as_ref().map_or(false, |p| !p.s.lock().unwrap().rclosed) {
            v.push("standard output");
        }
        if self.pipes[2].as_ref().map_or(false, |p| !p.s.lock().unwrap().rclosed) {
            v.push("standard error");
        }
        if self.waited {
            v.push("wait");
        }
        v
    }
}

/// Tells when the server drops the future that waits for the exit.
struct Waiting(Shared, usize);
impl Drop for Waiting {
    fn drop(&mut self) {
        let w = {
            let mut s = self.0.lock().unwrap();
            s.procs[self.1].waited = false;
            s.procs[self.1].exit_waker.take()
        };
        drop(w);
    }
}

/// The bytes process `id` writes to stream `stream`.
pub fn content(id: u64, stream: u64, n: usize) -> Vec<u8> {
    R::new(mix(id.wrapping_mul(4).wrapping_add(stream)) ^ 0xc0117e47).bytes(n)
}

type Shared = Arc<Mutex<WorldState>>;

struct Ends {
    stdin: Option<PipeR>,
    stdout: Option<PipeW>,
    stderr: Option<PipeW>,
}

async fn run_ops(w: Shared, env: Env, idx: usize, ends: Arc<Mutex<Ends>>, ops: Vec<Op>) {
    // The ends are taken while used; the two threads of a process use different ones.
    for op in ops {
        match op {
            Op::Out(n) | Op::Err(n) => {
                let is_out = matches!(op, Op::Out(_));
                let end = {
                    let mut e = ends.lock().unwrap();
                    if is_out {
                        e.stdout.take()
                    } else {
                        e.stderr.take()
                    }
                };
                if let Some(mut end) = end {
                    let (from, id) = {
                        let w = w.lock().unwrap();
                        let p = &w.procs[idx];
                        (if is_out { p.out } else { p.err } as usize, p.id)
                    };
                    let data = content(id, is_out as u64, from + n).split_off(from);
                    let mut rest = &data[..];
                    while !rest.is_empty() {
                        match end.write(rest).await {
                            Ok(k) => {
                                rest = &rest[k..];
                                let mut w = w.lock().unwrap();
                                let p = &mut w.procs[idx];
                                if is_out {
                                    p.out += k as u64
                                } else {
                                    p.err += k as u64
                                }
                            }
                            Err(_) => {
                                w.lock().unwrap().procs[idx].out_broken = true;
                                break;
                            }
                        }
                    }
                    let mut e = ends.lock().unwrap();
                    if is_out {
                        e.stdout = Some(end)
                    } else {
                        e.stderr = Some(end)
                    }
                }
            }
            Op::CloseOut => {
                let x = ends.lock().unwrap().stdout.take();
                drop(x)
            }
            Op::CloseErr => {
                let x = ends.lock().unwrap().stderr.take();
                drop(x)
            }
            Op::CloseIn => {
                let x = ends.lock().unwrap().stdin.take();
                drop(x)
            }
            Op::Read(_) | Op::ReadEof | Op::Echo => {
                let end = ends.lock().unwrap().stdin.take();
                if let Some(mut end) = end {
                    let mut out = if matches!(op, Op::Echo) { ends.lock().unwrap().stdout.take() } else { None };
                    if out.is_some() {
                        w.lock().unwrap().procs[idx].echoed = true;
                    }
                    let mut buf = [0; 777];
                    loop {
                        if let Op::Read(n) = op {
                            if w.lock().unwrap().procs[idx].stdin.len() >= n {
                                break;
                            }
                        }
                        match end.read(&mut buf).await {
                            Ok(0) | Err(_) => {
                                w.lock().unwrap().procs[idx].stdin_eof = true;
                                break;
                            }
                            Ok(n) => {
                                w.lock().unwrap().procs[idx].stdin.extend_from_slice(&buf[..n]);
                                if let Some(o) = out.as_mut() {
                                    if o.write_all(&buf[..n]).await.is_err() {
                                        w.lock().unwrap().procs[idx].out_broken = true;
                                        break;
                                    }
                                    w.lock().unwrap().procs[idx].out += n as u64;
                                }
                            }
                        }
                    }
                    let mut e = ends.lock().unwrap();
                    e.stdin = Some(end);
                    if out.is_some() {
                        e.stdout = out;
                    }
                }
            }
            Op::Yield(n) => env.yields(n).await,
            Op::Gate(g) => env.gate(&g).await,
            Op::StatusEarly(s) => exit(&w, idx, s),
            Op::Hang => futures::future::pending().await,
        }
    }
}

fn exit(w: &Shared, idx: usize, status: u32) {
    let waker = {
        let mut w = w.lock().unwrap();
        let p = &mut w.procs[idx];
        if p.exited.is_none() {
            p.exited = Some(status);
        }
        p.exit_waker.take()
    };
    if let Some(x) = waker {
        x.wake()
    }
}

async fn run_proc(w: Shared, env: Env, idx: usize, ends: Ends, script: Script) {
    let ends = Arc::new(Mutex::new(ends));
    let a = run_ops(w.clone(), env.clone(), idx, ends.clone(), script.ops);
    let b = run_ops(w.clone(), env.clone(), idx, ends.clone(), script.ops2);
    futures::join!(a, b);
    // Everything is closed at exit, in any order.
    drop(ends);
    exit(&w, idx, script.status);
    w.lock().unwrap().procs[idx].ended = true;
    env.active();
}

// ---------------------------------------------------------------- application

#[derive(Clone, Debug, PartialEq)]
pub enum AuthRec {
    None,
    Password(Vec<u8>),
    PublicKey { algorithm: Vec<u8>, key: Vec<u8>, signature: Vec<u8>, message: Vec<u8> },
    Unknown,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Query { user: Vec<u8>, service: Vec<u8>, algorithm: Vec<u8>, key: Vec<u8>, ok: bool },
    Auth { user: Vec<u8>, service: Vec<u8>, auth: AuthRec, token: Option<u64> },
    Spawn { token: u64, shell: bool, command: Vec<u8>, data: Vec<u8>, proc_: Option<u64> },
}

/// Decides an authentication request.
pub type AuthFn = Box<dyn FnMut(&[u8], &[u8], &AuthRec) -> bool + Send>;
pub type QueryFn = Box<dyn FnMut(&[u8], &[u8], &[u8], &[u8]) -> bool + Send>;

pub struct WorldState {
    accept: VecDeque<(PipeR, PipeW)>,
    accept_waker: Option<Waker>,
    pub events: Vec<Ev>,
    pub procs: Vec<Proc>,
    pub scripts: HashMap<Vec<u8>, Script>,
    pub auth: AuthFn,
    pub query: QueryFn,
    next_token: u64,
    pub tokens: HashMap<u64, Vec<u8>>,
    r: R,
    /// Upper bound of random delays of callbacks.
    pub delay: usize,
    /// Users whose authentication waits for a gate of that name.
    pub auth_gate: HashMap<Vec<u8>, String>,
    next_proc: u64,
    /// Users the server holds.
    pub users: Arc<std::sync::atomic::AtomicI64>,
    /// The server reads from the first and writes to the second.
    pub transports: Vec<(Pipe, Pipe)>,
}

#[derive(Clone)]
pub struct World {
    pub s: Shared,
    pub env: Env,
}

pub struct User {
    pub token: u64,
    live: Arc<std::sync::atomic::AtomicI64>,
}
impl Drop for User {
    fn drop(&mut self) {
        self.live.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}

impl World {
    pub fn new(env: &Env, r: &mut R) -> Self {
        let delay = *r.pick(&[0, 0, 1, 4]);
        World {
            s: Arc::new(Mutex::new(WorldState {
                accept: VecDeque::new(),
                accept_waker: None,
                events: Vec::new(),
                procs: Vec::new(),
                scripts: HashMap::new(),
                auth: Box::new(|_, _, _| true),
                query: Box::new(|_, _, _, _| true),
                next_token: r.u64() >> 1,
                tokens: HashMap::new(),
                next_proc: r.u64() >> 8,
                r: r.fork(),
                delay,
                auth_gate: HashMap::new(),
                users: Default::default(),
                transports: Vec::new(),
            })),
            env: env.clone(),
        }
    }

    /// Offer a connection to the server.
    pub fn connect(&self, rd: PipeR, wr: PipeW) {
        let w = {
            let mut s = self.s.lock().unwrap();
            s.transports.push((rd.0.clone(), wr.0.clone()));
            s.accept.push_back((rd, wr));
            s.accept_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    fn delay(&self) -> usize {
        let mut s = self.s.lock().unwrap();
        let d = s.delay + 1;
        s.r.below(d)
    }
}

pub struct Handlers(pub World);

#[async_trait::async_trait]
impl ServerHandlers for Handlers {
    type Sign = p256::NistP256;
    type Crypt = ChaCha20Poly1305;
    type Read = PipeR;
    type Write = PipeW;
    type User = User;
    type Stdin = PipeW;
    type Stdout = PipeR;
    type Stderr = PipeR;
    type Rng = SrvRng;

    async fn accept(&self) -> (PipeR, PipeW) {
        Untracked(futures::future::poll_fn(|cx| {
            let mut s = self.0.s.lock().unwrap();
            match s.accept.pop_front() {
                Some(c) => {
                    drop(s);
                    self.0.env.active();
                    Poll::Ready(c)
                }
                None => {
                    s.accept_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }))
        .await
    }

    async fn public_key_exists<'a>(
        &self,
        user: &'a [u8],
        service: &'a [u8],
        algorithm: &'a [u8],
        key: &'a [u8],
    ) -> Result<(), ()> {
        Untracked(self.do_public_key_exists(user, service, algorithm, key)).await
    }

    async fn authenticate<'a>(&self, user: &'a [u8], service: &'a [u8], auth: Auth<'a>) -> Result<User, ()> {
        Untracked(self.do_authenticate(user, service, auth)).await
    }

    async fn spawn<'a>(
        &self,
        user: &'a mut User,
        ty: SpawnType<'a>,
        data: &'a [u8],
    ) -> Result<IoSet<PipeW, PipeR, PipeR>, ()> {
        Untracked(self.do_spawn(user, ty, data)).await
    }
}

impl Handlers {
    async fn do_public_key_exists<'a>(
        &self,
        user: &'a [u8],
        service: &'a [u8],
        algorithm: &'a [u8],
        key: &'a [u8],
    ) -> Result<(), ()> {
        let d = self.0.delay();
        let (u, s, a, k) = (user.to_vec(), service.to_vec(), algorithm.to_vec(), key.to_vec());
        self.0.env.yields(d).await;
        let mut w = self.0.s.lock().unwrap();
        let ok = (w.query)(&u, &s, &a, &k);
        self.0.env.trace(|| format!("app: key query user={:?} -> {}", String::from_utf8_lossy(&u), ok));
        w.events.push(Ev::Query { user: u, service: s, algorithm: a, key: k, ok });
        self.0.env.active();
        if ok {
            Ok(())
        } else {
            Err(())
        }
    }

    async fn do_authenticate<'a>(&self, user: &'a [u8], service: &'a [u8], auth: Auth<'a>) -> Result<User, ()> {
        #[allow(unreachable_patterns)]
        let rec = match auth {
            Auth::None => AuthRec::None,
            Auth::Password(p) => AuthRec::Password(p.to_vec()),
            Auth::PublicKey { algorithm, key, signature, message } => AuthRec::PublicKey {
                algorithm: algorithm.to_vec(),
                key: key.to_vec(),
                signature: signature.to_vec(),
                message: message.to_vec(),
            },
            _ => AuthRec::Unknown,
        };
        let (u, s) = (user.to_vec(), service.to_vec());
        let d = self.0.delay();
        let gate = self.0.s.lock().unwrap().auth_gate.get(&u).cloned();
        self.0.env.yields(d).await;
        if let Some(g) = gate {
            self.0.env.gate(&g).await;
        }
        let mut w = self.0.s.lock().unwrap();
        let ok = (w.auth)(&u, &s, &rec);
        let token = ok.then(|| {
            w.next_token += 1;
            w.next_token
        });
        self.0.env.trace(|| format!("app: authenticate user={:?} -> {:?}", String::from_utf8_lossy(&u), token));
        if let Some(t) = token {
            w.tokens.insert(t, u.clone());
        }
        w.events.push(Ev::Auth { user: u, service: s, auth: rec, token });
        self.0.env.active();
        let live = w.users.clone();
        token
            .map(|token| {
                live.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                User { token, live }
            })
            .ok_or(())
    }

    async fn do_spawn<'a>(
        &self,
        user: &'a mut User,
        ty: SpawnType<'a>,
        data: &'a [u8],
    ) -> Result<IoSet<PipeW, PipeR, PipeR>, ()> {
        #[allow(unreachable_patterns)]
        let (shell, command) = match ty {
            SpawnType::Shell => (true, {
                let s = self.0.s.lock().unwrap();
                let name = s.tokens.get(&user.token).cloned().unwrap_or_default();
                [b"shell:", &name[..]].concat()
            }),
            SpawnType::Exec { command } => (false, command.to_vec()),
            _ => (false, b"?".to_vec()),
        };
        let token = user.token;
        let data = data.to_vec();
        let script = self.0.s.lock().unwrap().scripts.get(&command).cloned();
        if let Some(s) = &script {
            self.0.env.yields(s.delay).await;
            if let Some(g) = &s.gate {
                self.0.env.gate(g).await;
            }
        }
        let d = self.0.delay();
        self.0.env.yields(d).await;
        let w = self.0.s.clone();
        let mut s = w.lock().unwrap();
        let script = match script {
            Some(x) if !x.refuse => x,
            _ => {
                s.events.push(Ev::Spawn { token, shell, command, data, proc_: None });
                self.0.env.active();
                return Err(());
            }
        };
        s.next_proc += 1;
        let id = s.next_proc;
        let idx = s.procs.len();
        self.0.env.trace(|| format!("app: spawn {:?} as process {}", String::from_utf8_lossy(&command), idx));
        s.events.push(Ev::Spawn { token, shell, command: command.clone(), data, proc_: Some(id) });
        s.procs.push(Proc {
            id,
            user: token,
            command,
            shell,
            stdin: Vec::new(),
            stdin_eof: false,
            out: 0,
            err: 0,
            echoed: false,
            out_broken: false,
            exited: None,
            ended: false,
            exit_waker: None,
            pipes: [None, None, None],
            waited: true,
        });
        let cfg = script.cfg[0].clone().maybe_buffered(&mut s.r);
        let (ir, iw) = pipe(&self.0.env, &mut s.r, cfg);
        let (or, ow) = pipe(&self.0.env, &mut s.r, script.cfg[1].clone());
        let (er, ew) = pipe(&self.0.env, &mut s.r, script.cfg[2].clone());
        let has = script.has;
        s.procs[idx].pipes = [has[0].then(|| iw.0.clone()), has[1].then(|| or.0.clone()), has[2].then(|| er.0.clone())];
        drop(s);
        let ends = Ends {
            stdin: has[0].then_some(ir),
            stdout: has[1].then_some(ow),
            stderr: has[2].then_some(ew),
        };
        self.0.env.spawn(run_proc(w.clone(), self.0.env.clone(), idx, ends, script));
        self.0.env.active();
        let wait = {
            let w = w.clone();
            let waiting = Waiting(w.clone(), idx);
            futures::future::poll_fn(move |cx| {
                let _ = &waiting;
                let mut s = w.lock().unwrap();
                let p = &mut s.procs[idx];
                match p.exited {
                    Some(s) => Poll::Ready(s),
                    None => {
                        p.exit_waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            })
        };
        Ok(IoSet {
            stdin: has[0].then_some(iw),
            stdout: has[1].then_some(or),
            stderr: has[2].then_some(er),
            wait: Box::pin(wait),
        })
    }
}

thread_local! {
    static KEYS: std::cell::RefCell<HashMap<u64, p256::ecdsa::SigningKey>> = Default::default();
}

/// One of a few host keys.
pub fn host_key(n: u64) -> p256::ecdsa::SigningKey {
    KEYS.with(|k| {
        k.borrow_mut()
            .entry(n)
            .or_insert_with(|| p256::ecdsa::SigningKey::random(&mut R::new(n ^ 0x4057)))
            .clone()
    })
}

#[allow(unreachable_code)]
pub fn server(world: &World, ident: &'static [u8], key: u64) -> LocalFut {
    let s = Server::new(Identifier::new(ident).expect("harness: identifier"), host_key(key), Handlers(world.clone()));
    Box::pin(async move {
        s.start().await;
    })
}
