//! A synchronous client of the real daemon over TCP, and the daemon's process.

use crate::client::{auth_req, blob, describe, frame, service_request, sign_data, verify, Hs};
use crate::crypto::{self, mpint_content, put_str};
use crate::procs::*;
use crate::rng::R;
use crate::wire::{self, F};
use ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey};
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read, Write};
use std::net::TcpStream;
use std::os::fd::AsRawFd;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- daemon

pub struct Daemon {
    pub child: std::process::Child,
    pub port: u16,
    pub pgid: i32,
    pub stderr: std::path::PathBuf,
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

impl Daemon {
    /// `limit`: most open files.
    pub fn start(sc: &Scratch, shell: Option<&Path>, limit: Option<u64>) -> Daemon {
        use std::os::unix::process::CommandExt;
        let k = SERIAL.fetch_add(1, SeqCst);
        let file = sc.0.join(format!("port{}", k));
        let stderr = sc.0.join(format!("stderr{}", k));
        let mut c = command("nora_sshd", &sc.0);
        c.env("LD_PRELOAD", root().join("shim.so")).env("PATH", format!("{}:/usr/bin:/bin", root().display())).env("VH_PORT_FILE", &file).env("ASYNC_STD_THREAD_COUNT", "2");
        if let Some(s) = shell {
            c.env("SHELL", s);
        }
        c.stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::fs::File::create(&stderr).expect("harness: stderr"));
        if let Some(n) = limit {
            unsafe {
                c.pre_exec(move || {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                    Ok(())
                });
            }
        }
        let mut child = c.spawn().expect("harness: daemon");
        let pgid = child.id() as i32;
        let t = Instant::now();
        loop {
            if let Ok(s) = std::fs::read_to_string(&file) {
                if let Some(port) = s.split(' ').next().and_then(|s| s.parse().ok()) {
                    return Daemon { child, port, pgid, stderr };
                }
            }
            if let Ok(Some(s)) = child.try_wait() {
                panic!("harness: the daemon does not start: {} {:?}", s, std::fs::read_to_string(&stderr));
            }
            if t.elapsed().as_secs() > 100 {
                let _ = child.kill();
                panic!("harness: the daemon does not listen");
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }

    /// The daemon's last words if it is gone.
    pub fn dead(&mut self) -> Option<String> {
        let s = self.child.try_wait().expect("harness: wait")?;
        let e = std::fs::read(&self.stderr).unwrap_or_default();
        let e = String::from_utf8_lossy(&e[e.len().saturating_sub(600)..]).into_owned();
        Some(format!("the daemon ended: {}; {}", s, e))
    }

    /// Dead or about to die (a panic was printed).
    pub fn dying(&mut self) -> Option<String> {
        let e = std::fs::read(&self.stderr).unwrap_or_default();
        if String::from_utf8_lossy(&e).contains("panicked at") {
            let t = Instant::now();
            while t.elapsed().as_millis() < 2000 {
                if let Some(d) = self.dead() {
                    return Some(d);
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        self.dead()
    }
}

impl Drop for Daemon {
    fn drop(&mut self) {
        unsafe { libc::kill(-self.pgid, libc::SIGKILL) };
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ---------------------------------------------------------------- client

#[derive(Debug)]
pub enum Fail {
    /// The server ended the connection.
    Closed,
    /// Nothing happens although something should.
    Stalled(String),
    /// The server sent something wrong.
    Bad(String),
}

impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Fail::Closed => write!(f, "the connection ended"),
            Fail::Stalled(s) => write!(f, "stalled: {}", s),
            Fail::Bad(s) => write!(f, "{}", s),
        }
    }
}

pub struct Tcp {
    pub s: TcpStream,
    pub pgid: i32,
    inbuf: Vec<u8>,
    outbuf: Vec<u8>,
    eof: bool,
    key_in: Option<[u8; 64]>,
    key_out: Option<[u8; 64]>,
    seq_in: u64,
    seq_out: u64,
    pub id: [u8; 32],
    pub host: Vec<u8>,
    pub r: R,
    /// Largest piece written at once.
    pub piece: usize,
    pub packets: u64,
}

pub struct Key {
    secret: SecretKey,
    pub public: [u8; 32],
}

impl Key {
    pub fn new(r: &mut R) -> Key {
        let secret = SecretKey::from_bytes(&r.bytes(32)).unwrap();
        let public = PublicKey::from(&secret).to_bytes();
        Key { secret, public }
    }
    pub fn sign(&self, data: &[u8]) -> Vec<u8> {
        let e = ExpandedSecretKey::from(&self.secret);
        e.sign(data, &PublicKey::from(&self.secret)).to_bytes().to_vec()
    }
    pub fn blob(&self) -> Vec<u8> {
        blob(b"ssh-ed25519", &self.public)
    }
}

impl Tcp {
    pub fn connect(d: (u16, i32), r: &mut R) -> Result<Tcp, Fail> {
        let s = TcpStream::connect(("127.0.0.1", d.0)).map_err(|_| Fail::Closed)?;
        s.set_nonblocking(true).expect("harness: nonblocking");
        let _ = s.set_nodelay(true);
        let piece = *r.pick(&[1 << 20, 1 << 20, 3000, 100, 7]);
        Ok(Tcp {
            s,
            pgid: d.1,
            inbuf: Vec::new(),
            outbuf: Vec::new(),
            eof: false,
            key_in: None,
            key_out: None,
            seq_in: 0,
            seq_out: 0,
            id: [0; 32],
            host: Vec::new(),
            r: r.fork(),
            piece,
            packets: 0,
        })
    }

    /// Move bytes once. True if any moved.
    fn step(&mut self) -> bool {
        let mut any = false;
        if !self.outbuf.is_empty() {
            let n = self.outbuf.len().min(self.piece);
            match self.s.write(&self.outbuf[..n]) {
                Ok(n) => {
                    self.outbuf.drain(..n);
                    any = true;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::Interrupted => {}
                // The other side may have sent something before it ended.
                Err(_) => {
                    self.outbuf.clear();
                    any = true;
                }
            }
        }
        if !self.eof {
            let mut b = [0; 1 << 16];
            match self.s.read(&mut b) {
                Ok(0) => {
                    self.eof = true;
                    any = true;
                }
                Ok(n) => {
                    self.inbuf.extend_from_slice(&b[..n]);
                    any = true;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::Interrupted => {}
                Err(_) => {
                    self.eof = true;
                    any = true;
                }
            }
        }
        any
    }

    /// Wait until something moves.
    fn pump(&mut self, why: &str) -> Result<(), Fail> {
        let t = Instant::now();
        let mut asleep: Option<Instant> = None;
        loop {
            if self.step() {
                return Ok(());
            }
            if self.eof {
                return Err(Fail::Closed);
            }
            let mut fd = libc::pollfd {
                fd: self.s.as_raw_fd(),
                events: libc::POLLIN | if self.outbuf.is_empty() { 0 } else { libc::POLLOUT },
                revents: 0,
            };
            let n = unsafe { libc::poll(&mut fd, 1, 200) };
            if n == 0 {
                if group_asleep(self.pgid) {
                    let since = *asleep.get_or_insert_with(Instant::now);
                    if since.elapsed().as_secs() > 20 {
                        return Err(Fail::Stalled(why.to_string()));
                    }
                } else {
                    asleep = None;
                }
                if t.elapsed().as_secs() > 200 {
                    panic!("harness: no progress and not at rest: {}", why);
                }
            }
        }
    }

    pub fn raw(&mut self, b: &[u8]) {
        self.outbuf.extend_from_slice(b);
        self.step();
    }

    pub fn packet(&mut self, payload: &[u8]) -> Vec<u8> {
        let p = frame(&mut self.r, payload, self.key_out.is_some(), 2);
        let p = match &self.key_out {
            Some(k) => crypto::seal(k, self.seq_out, &p),
            None => p,
        };
        self.seq_out += 1;
        p
    }

    pub fn send(&mut self, payload: &[u8]) {
        let p = self.packet(payload);
        self.raw(&p);
    }

    pub fn send_msg(&mut self, ty: u8, f: Vec<F>) {
        self.send(&wire::encode(&wire::Msg { ty, f }));
    }

    pub fn flush(&mut self) -> Result<(), Fail> {
        while !self.outbuf.is_empty() {
            self.pump("sending")?;
        }
        Ok(())
    }

    pub fn outstanding(&self) -> usize {
        self.outbuf.len()
    }

    pub fn line(&mut self) -> Result<Vec<u8>, Fail> {
        loop {
            if let Some(i) = self.inbuf.iter().position(|c| *c == b'\n') {
                let mut l: Vec<u8> = self.inbuf.drain(..=i).collect();
                l.truncate(l.len() - 1);
                if l.last() == Some(&b'\r') {
                    l.pop();
                }
                return Ok(l);
            }
            self.pump("identification")?;
        }
    }

    /// A packet if one is complete.
    fn take(&mut self) -> Result<Option<Vec<u8>>, Fail> {
        if self.inbuf.len() < 4 {
            return Ok(None);
        }
        let head: [u8; 4] = self.inbuf[..4].try_into().unwrap();
        let (len, tag) = match &self.key_in {
            Some(k) => (crypto::open_len(k, self.seq_in, head) as usize, 16),
            None => (u32::from_be_bytes(head) as usize, 0),
        };
        if len > 300_000 || len < 8 {
            return Err(Fail::Bad(format!("packet of {} bytes", len)));
        }
        if self.inbuf.len() < 4 + len + tag {
            return Ok(None);
        }
        let p: Vec<u8> = self.inbuf.drain(..4 + len + tag).collect();
        let p = match &self.key_in {
            Some(k) => crypto::open(k, self.seq_in, &p).ok_or_else(|| Fail::Bad("packet with a wrong tag".into()))?,
            None => p,
        };
        self.seq_in += 1;
        self.packets += 1;
        let pad = p[4] as usize;
        if pad < 4 || 6 + pad > p.len() {
            return Err(Fail::Bad(format!("padding of {} bytes", pad)));
        }
        Ok(Some(p[5..p.len() - pad].to_vec()))
    }

    pub fn try_recv(&mut self) -> Result<Option<Vec<u8>>, Fail> {
        self.step();
        loop {
            match self.take()? {
                Some(p) if matches!(p[0], 2 | 4) => {}
                p => return Ok(p),
            }
        }
    }

    pub fn recv(&mut self, why: &str) -> Result<Vec<u8>, Fail> {
        loop {
            match self.take()? {
                Some(p) if matches!(p[0], 2 | 4) => {}
                Some(p) => return Ok(p),
                None => self.pump(why)?,
            }
        }
    }

    /// None: less than this is left to be sent.
    pub fn recv_or_drained(&mut self, why: &str, left: usize) -> Result<Option<Vec<u8>>, Fail> {
        loop {
            match self.take()? {
                Some(p) if matches!(p[0], 2 | 4) => {}
                Some(p) => return Ok(Some(p)),
                None if self.outbuf.len() < left => return Ok(None),
                None => self.pump(why)?,
            }
        }
    }

    pub fn handshake(&mut self, h: &Hs) -> Result<(), Fail> {
        let mut first = h.preamble.clone();
        first.extend_from_slice(&h.ident);
        first.extend_from_slice(b"\r\n");
        self.raw(&first);
        let ic = h.kexinit();
        self.send(&ic);
        if let Some(g) = &h.guess {
            self.send(g);
        }
        let q_c = h.public();
        let mut p = vec![30];
        put_str(&mut p, &q_c);
        self.send(&p);
        let vs = self.line()?;
        let is = self.recv("key exchange")?;
        let reply = self.recv("key exchange reply")?;
        let m = wire::parse(&reply).filter(|m| m.ty == 31).ok_or_else(|| Fail::Bad(format!("instead of a reply: {}", describe(&reply))))?;
        let f: Vec<Vec<u8>> = m
            .f
            .iter()
            .map(|f| match f {
                F::S(s) => s.clone(),
                _ => unreachable!(),
            })
            .collect();
        let q_s: [u8; 32] = f[3].clone().try_into().map_err(|_| Fail::Bad("ephemeral key".into()))?;
        let secret = x25519_dalek::x25519(h.secret, q_s);
        let mut ks = Vec::new();
        for i in 0..3 {
            put_str(&mut ks, &f[i]);
        }
        let mut hd = Vec::new();
        for s in [&h.ident[..], &vs, &ic, &is, &ks, &q_c, &q_s, &mpint_content(&secret)] {
            put_str(&mut hd, s);
        }
        let hash = crypto::sha256(&hd);
        if !verify(&f[2], &hash, &f[5], &f[6]) {
            return Err(Fail::Bad("the host key signature does not verify".into()));
        }
        self.host = f[2].clone();
        let nk = self.recv("new keys")?;
        if nk != [21] {
            return Err(Fail::Bad(format!("instead of new keys: {}", describe(&nk))));
        }
        self.send(&[21]);
        self.key_out = Some(crypto::kdf(&secret, &hash, b'C', 64).try_into().unwrap());
        self.key_in = Some(crypto::kdf(&secret, &hash, b'D', 64).try_into().unwrap());
        self.id = hash;
        Ok(())
    }

    pub fn service(&mut self) -> Result<(), Fail> {
        self.send(&service_request(b"ssh-userauth"));
        let m = self.recv("service")?;
        if m[0] != 6 {
            return Err(Fail::Bad(format!("instead of service accept: {}", describe(&m))));
        }
        Ok(())
    }

    pub fn signed_request(&self, key: &Key, user: &[u8]) -> Vec<u8> {
        let kb = key.blob();
        let sig = key.sign(&sign_data(&self.id, user, b"ssh-connection", b"ssh-ed25519", &kb));
        auth_req(user, b"ssh-connection", b"publickey", |v| {
            v.push(1);
            put_str(v, b"ssh-ed25519");
            put_str(v, &kb);
            put_str(v, &blob(b"ssh-ed25519", &sig));
        })
    }

    /// Log in with a genuine signature.
    pub fn login(&mut self, key: &Key, user: &[u8]) -> Result<(), Fail> {
        let m = self.signed_request(key, user);
        self.send(&m);
        let m = self.recv("login")?;
        if m != [52] {
            return Err(Fail::Bad(format!("genuine login refused: {}", describe(&m))));
        }
        Ok(())
    }

    pub fn established(d: (u16, i32), r: &mut R, user: &[u8]) -> Result<Tcp, Fail> {
        let mut c = Tcp::connect(d, r)?;
        let h = if r.chance(1, 3) { Hs::random(r) } else { Hs::plain(r) };
        c.handshake(&h)?;
        c.service()?;
        let key = Key::new(r);
        c.login(&key, user)?;
        Ok(c)
    }

    /// Everything up to the end of the connection, in packets.
    pub fn rest(&mut self) -> Result<Vec<Vec<u8>>, Fail> {
        let mut v = Vec::new();
        loop {
            match self.recv("end of connection") {
                Ok(p) => v.push(p),
                Err(Fail::Closed) => return Ok(v),
                Err(e) => return Err(e),
            }
        }
    }

    /// Disconnect without saying anything more. With `reset`, unread data is lost on both sides.
    pub fn abandon(self, reset: bool) {
        if reset {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(
                    self.s.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    &l as *const _ as *const _,
                    std::mem::size_of::<libc::linger>() as u32,
                )
            };
        }
    }
}

// ---------------------------------------------------------------- sessions

pub struct Job {
    /// None: shell.
    pub command: Option<Vec<u8>>,
    pub input: Vec<u8>,
    /// Send end-of-file after the input.
    pub eof: bool,
    pub window: u32,
    pub max_packet: u32,
    /// Most bytes sent in a packet.
    pub chunk: usize,
}

#[derive(Default, Debug)]
pub struct Done {
    pub started: Option<bool>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub status: Option<u32>,
    pub eof: bool,
    pub closed: bool,
}

struct Chan {
    remote: Option<(u32, u64, u64)>,
    sent: usize,
    eof_sent: bool,
    close_sent: bool,
    window: u64,
    requested: bool,
    opened: bool,
}

fn request(c: &mut Tcp, remote: u32, kind: &[u8], data: &[u8], reply: bool) {
    let mut v = vec![98];
    v.extend_from_slice(&remote.to_be_bytes());
    put_str(&mut v, kind);
    v.push(reply as u8);
    v.extend_from_slice(data);
    c.send(&v);
}

/// Run all jobs at the same time on one connection.
pub fn run_jobs(c: &mut Tcp, jobs: &[Job]) -> Result<Vec<Done>, Fail> {
    let mut done: Vec<Done> = jobs.iter().map(|_| Done::default()).collect();
    let mut ch: Vec<Chan> = jobs
        .iter()
        .map(|j| Chan { remote: None, sent: 0, eof_sent: false, close_sent: false, window: j.window as u64, requested: false, opened: false })
        .collect();
    for (i, j) in jobs.iter().enumerate() {
        let mut v = vec![90];
        put_str(&mut v, b"session");
        for x in [i as u32, j.window, j.max_packet] {
            v.extend_from_slice(&x.to_be_bytes());
        }
        c.send(&v);
        ch[i].opened = true;
    }
    let bad = |i: usize, s: String| Fail::Bad(format!("job {}: {}", i, s));
    loop {
        // What can be sent
        for (i, j) in jobs.iter().enumerate() {
            if c.outstanding() > 1 << 18 {
                break;
            }
            let k = &mut ch[i];
            let Some((remote, win, max)) = &mut k.remote else { continue };
            let remote = *remote;
            if k.close_sent {
                continue;
            }
            if !k.requested {
                k.requested = true;
                match &j.command {
                    Some(cmd) => {
                        let mut d = Vec::new();
                        put_str(&mut d, cmd);
                        request(c, remote, b"exec", &d, true);
                    }
                    None => request(c, remote, b"shell", b"", true),
                }
            }
            if done[i].started == Some(true) && !done[i].closed {
                while k.sent < j.input.len() && *win > 0 && c.outstanding() < 1 << 18 {
                    let n = (j.input.len() - k.sent).min(j.chunk).min(*win as usize).min(*max as usize);
                    let mut v = vec![94];
                    v.extend_from_slice(&remote.to_be_bytes());
                    put_str(&mut v, &j.input[k.sent..k.sent + n]);
                    c.send(&v);
                    k.sent += n;
                    *win -= n as u64;
                }
                if k.sent == j.input.len() && j.eof && !k.eof_sent {
                    k.eof_sent = true;
                    c.send_msg(96, vec![F::U(remote)]);
                }
            }
            if done[i].closed || done[i].started == Some(false) {
                k.close_sent = true;
                c.send_msg(97, vec![F::U(remote)]);
            }
        }
        // Both sides closed everything?
        if (0..jobs.len()).all(|i| ch[i].close_sent && done[i].closed) {
            c.flush()?;
            return Ok(done);
        }
        let more = (0..jobs.len()).any(|i| done[i].started == Some(true) && !done[i].closed && !ch[i].close_sent && ch[i].sent < jobs[i].input.len() && ch[i].remote.map_or(false, |r| r.1 > 0));
        let Some(p) = c.recv_or_drained(&format!("sessions {:?}", done.iter().map(|d| (d.started, d.out.len(), d.status, d.eof, d.closed)).collect::<Vec<_>>()), if more { 1 << 17 } else { 0 })? else { continue };
        let m = wire::parse(&p).ok_or_else(|| Fail::Bad(format!("malformed message of type {}", p[0])))?;
        let num = |i: usize| match m.f.get(i) {
            Some(F::U(v)) => *v,
            _ => 0,
        };
        let i = num(0) as usize;
        if !(90..=100).contains(&m.ty) || i >= jobs.len() {
            return Err(Fail::Bad(format!("unexpected {}", describe(&p))));
        }
        if done[i].closed {
            return Err(bad(i, format!("after close: {}", describe(&p))));
        }
        let d = &mut done[i];
        let k = &mut ch[i];
        match m.ty {
            91 if k.remote.is_none() => k.remote = Some((num(1), num(2) as u64, num(3) as u64)),
            93 => {
                if let Some(r) = &mut k.remote {
                    r.1 += num(1) as u64;
                }
            }
            94 | 95 => {
                let data = match m.f.last() {
                    Some(F::S(s)) => s.clone(),
                    _ => unreachable!(),
                };
                if d.started != Some(true) {
                    return Err(bad(i, "data before success".into()));
                }
                if d.eof {
                    return Err(bad(i, "data after end-of-file".into()));
                }
                if data.len() as u64 > k.window || data.len() as u64 > jobs[i].max_packet as u64 {
                    return Err(bad(i, format!("{} bytes with a window of {}", data.len(), k.window)));
                }
                k.window -= data.len() as u64;
                if k.window < jobs[i].window as u64 / 2 + 1 {
                    let add = jobs[i].window as u64 - k.window;
                    k.window += add;
                    let r = k.remote.unwrap().0;
                    c.send_msg(93, vec![F::U(r), F::U(add as u32)]);
                }
                if m.ty == 94 {
                    d.out.extend_from_slice(&data);
                } else if num(1) == 1 {
                    d.err.extend_from_slice(&data);
                } else {
                    return Err(bad(i, format!("extended data of type {}", num(1))));
                }
            }
            96 => d.eof = true,
            97 => d.closed = true,
            98 => {
                if let (Some(F::S(t)), Some(F::S(v))) = (m.f.get(1), m.f.last()) {
                    if t == b"exit-status" && v.len() == 4 {
                        if d.status.is_some() {
                            return Err(bad(i, "second exit status".into()));
                        }
                        d.status = Some(u32::from_be_bytes(v[..].try_into().unwrap()));
                    }
                }
            }
            99 | 100 if d.started.is_none() => d.started = Some(m.ty == 99),
            _ => return Err(bad(i, format!("unexpected {}", describe(&p)))),
        }
    }
}

/// What a client could say that is legitimate but not important.
pub fn group_counts(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    *m.entry(k.to_string()).or_insert(0) += n;
}
