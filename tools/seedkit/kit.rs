//! A small in-memory world: the real server, a synchronous client, processes driven by hand.
#![allow(dead_code)]
use futures::executor::{LocalPool, LocalSpawner};
use futures::io::{AsyncRead, AsyncWrite};
use futures::task::LocalSpawnExt;
use nora_ssh::auth::Auth;
use nora_ssh::server::{IoSet, Server, ServerHandlers, SpawnType};
use nora_ssh::Identifier;
use nora_ssh_core::cipher::{ChaCha20Poly1305, Cipher};
use nora_ssh_core::key_exchange::{Direction, KeyMaterial};
use nora_ssh_core::message::key_exchange::ecdh::{Key, KeyBlob, KeyExchangeDigest};
use rand::SeedableRng;
use std::collections::{HashMap, VecDeque};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Default)]
pub struct P {
    pub buf: VecDeque<u8>,
    pub closed: bool,
    pub broken: bool,
    pub cap: usize,
    pub chunk: usize,
    rw: Option<Waker>,
    ww: Option<Waker>,
}
#[derive(Clone)]
pub struct Pipe(pub Arc<Mutex<P>>);
impl Pipe {
    pub fn new() -> Self {
        Pipe(Arc::new(Mutex::new(P { cap: 1 << 30, chunk: 1 << 30, ..Default::default() })))
    }
    fn wake(&self) {
        let (a, b) = {
            let mut p = self.0.lock().unwrap();
            (p.rw.take(), p.ww.take())
        };
        a.map(|w| w.wake());
        b.map(|w| w.wake());
    }
    pub fn put(&self, d: &[u8]) {
        self.0.lock().unwrap().buf.extend(d);
        self.wake();
    }
    pub fn take(&self) -> Vec<u8> {
        let v = self.0.lock().unwrap().buf.drain(..).collect();
        self.wake();
        v
    }
    /// Writer is done.
    pub fn close(&self) {
        self.0.lock().unwrap().closed = true;
        self.wake();
    }
    pub fn set_cap(&self, cap: usize) {
        self.0.lock().unwrap().cap = cap;
        self.wake();
    }
    pub fn set_chunk(&self, chunk: usize) {
        self.0.lock().unwrap().chunk = chunk;
    }
    pub fn closed(&self) -> bool {
        self.0.lock().unwrap().closed
    }
}
pub struct Rd(pub Pipe);
pub struct Wr(pub Pipe);
impl Drop for Rd {
    fn drop(&mut self) {
        (self.0).0.lock().unwrap().broken = true;
        self.0.wake();
    }
}
impl Drop for Wr {
    fn drop(&mut self) {
        self.0.close();
    }
}
impl AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut p = (self.0).0.lock().unwrap();
        if p.buf.is_empty() {
            if p.closed {
                return Poll::Ready(Ok(0));
            }
            p.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = b.len().min(p.buf.len()).min(p.chunk);
        for x in b[..n].iter_mut() {
            *x = p.buf.pop_front().unwrap();
        }
        let w = p.ww.take();
        drop(p);
        w.map(|w| w.wake());
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Wr {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = (self.0).0.lock().unwrap();
        if p.broken {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let n = b.len().min(p.cap.saturating_sub(p.buf.len())).min(p.chunk);
        if n == 0 {
            p.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        p.buf.extend(&b[..n]);
        let w = p.rw.take();
        drop(p);
        w.map(|w| w.wake());
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.close();
        Poll::Ready(Ok(()))
    }
}

#[derive(Clone)]
pub struct Proc {
    pub user: String,
    pub command: String,
    pub stdin: Pipe,
    pub stdout: Pipe,
    pub stderr: Pipe,
    pub status: Arc<Mutex<(Option<u32>, Option<Waker>)>>,
}
impl Proc {
    pub fn exit(&self, s: u32) {
        self.stdout.close();
        self.stderr.close();
        let mut g = self.status.lock().unwrap();
        g.0 = Some(s);
        let w = g.1.take();
        drop(g);
        w.map(|w| w.wake());
    }
}

#[derive(Default)]
pub struct App {
    conns: VecDeque<(Rd, Wr)>,
    waker: Option<Waker>,
    pub log: Vec<String>,
    pub procs: Vec<Proc>,
    /// Users that are let in with any credentials, and everyone else is not.
    pub refuse: Vec<String>,
    pub refuse_commands: bool,
    pub messages: Vec<Vec<u8>>,
    gates: HashMap<String, (bool, Option<Waker>)>,
}
pub type Shared = Arc<Mutex<App>>;
struct H(Shared);
pub fn gate(app: &Shared, user: &str) {
    app.lock().unwrap().gates.insert(user.into(), (false, None));
}
pub fn open_gate(app: &Shared, user: &str) {
    let w = app.lock().unwrap().gates.get_mut(user).map(|g| {
        g.0 = true;
        g.1.take()
    });
    w.flatten().map(|w| w.wake());
}

#[async_trait::async_trait]
impl ServerHandlers for H {
    type Sign = p256::NistP256;
    type Crypt = ChaCha20Poly1305;
    type Read = Rd;
    type Write = Wr;
    type User = String;
    type Stdin = Wr;
    type Stdout = Rd;
    type Stderr = Rd;
    type Rng = rand::rngs::StdRng;
    async fn accept(&self) -> (Rd, Wr) {
        futures::future::poll_fn(|cx| {
            let mut a = self.0.lock().unwrap();
            match a.conns.pop_front() {
                Some(c) => Poll::Ready(c),
                None => {
                    a.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await
    }
    async fn public_key_exists<'a>(&self, user: &'a [u8], _: &'a [u8], _: &'a [u8], _: &'a [u8]) -> Result<(), ()> {
        let u = String::from_utf8_lossy(user).to_string();
        let mut a = self.0.lock().unwrap();
        a.log.push(format!("query {}", u));
        if a.refuse.contains(&u) {
            Err(())
        } else {
            Ok(())
        }
    }
    async fn authenticate<'a>(&self, user: &'a [u8], _: &'a [u8], auth: Auth<'a>) -> Result<String, ()> {
        let u = String::from_utf8_lossy(user).to_string();
        futures::future::poll_fn(|cx| {
            let mut a = self.0.lock().unwrap();
            match a.gates.get_mut(&u) {
                Some((false, w)) => {
                    *w = Some(cx.waker().clone());
                    Poll::Pending
                }
                _ => Poll::Ready(()),
            }
        })
        .await;
        let mut a = self.0.lock().unwrap();
        a.log.push(format!("auth {}", u));
        if let Auth::PublicKey { message, .. } = auth {
            a.messages.push(message.to_vec());
        }
        if a.refuse.contains(&u) {
            Err(())
        } else {
            Ok(u)
        }
    }
    async fn spawn<'a>(&self, user: &'a mut String, ty: SpawnType<'a>, _: &'a [u8]) -> Result<IoSet<Wr, Rd, Rd>, ()> {
        let command = match ty {
            SpawnType::Shell => "SHELL".to_string(),
            SpawnType::Exec { command } => String::from_utf8_lossy(command).to_string(),
        };
        let mut a = self.0.lock().unwrap();
        a.log.push(format!("spawn {} {}", user, command));
        if a.refuse_commands {
            return Err(());
        }
        let p = Proc {
            user: user.clone(),
            command,
            stdin: Pipe::new(),
            stdout: Pipe::new(),
            stderr: Pipe::new(),
            status: Default::default(),
        };
        a.procs.push(p.clone());
        let s = p.status.clone();
        Ok(IoSet {
            stdin: Some(Wr(p.stdin)),
            stdout: Some(Rd(p.stdout)),
            stderr: Some(Rd(p.stderr)),
            wait: Box::pin(futures::future::poll_fn(move |cx| {
                let mut g = s.lock().unwrap();
                match g.0 {
                    Some(x) => Poll::Ready(x),
                    None => {
                        g.1 = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            })),
        })
    }
}

pub struct World {
    pub pool: LocalPool,
    pub spawner: LocalSpawner,
    pub app: Shared,
    /// A daemon instead of the server in memory.
    tcp: Option<u16>,
    socks: Vec<(std::net::TcpStream, Pipe, Pipe)>,
}
impl World {
    pub fn daemon(port: u16) -> Self {
        let pool = LocalPool::new();
        let spawner = pool.spawner();
        World { pool, spawner, app: Default::default(), tcp: Some(port), socks: Vec::new() }
    }
    pub fn new() -> Self {
        let pool = LocalPool::new();
        let spawner = pool.spawner();
        let app: Shared = Default::default();
        let key = ecdsa::SigningKey::<p256::NistP256>::random(&mut rand::rngs::StdRng::seed_from_u64(7));
        let s = Server::new(Identifier::new(b"SSH-2.0-demo").unwrap(), key, H(app.clone()));
        spawner.spawn_local(async move { s.start().await }).unwrap();
        World { pool, spawner, app, tcp: None, socks: Vec::new() }
    }
    /// Let the server do everything it can do now.
    pub fn run(&mut self) {
        if self.tcp.is_none() {
            return self.pool.run_until_stalled();
        }
        use std::io::{Read, Write};
        for (t, c2s, _) in &mut self.socks {
            let _ = t.write_all(&c2s.take());
        }
        // Until nothing comes any more.
        let mut quiet = 0;
        while quiet < 30 {
            quiet += 1;
            for (t, _, s2c) in &mut self.socks {
                t.set_nonblocking(true).unwrap();
                let mut b = [0; 4096];
                match t.read(&mut b) {
                    Ok(0) => s2c.close(),
                    Ok(n) => {
                        s2c.put(&b[..n]);
                        quiet = 0;
                    }
                    Err(e) if e.kind() == io::ErrorKind::WouldBlock => {}
                    Err(_) => s2c.close(),
                }
                t.set_nonblocking(false).unwrap();
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
    }
    /// An unencrypted connection: what the client writes, what it reads.
    pub fn raw(&mut self) -> (Pipe, Pipe) {
        let (c2s, s2c) = (Pipe::new(), Pipe::new());
        if let Some(port) = self.tcp {
            let mut n = 0;
            let t = loop {
                match std::net::TcpStream::connect(("127.0.0.1", port)) {
                    Ok(t) => break t,
                    Err(e) if n == 200 => panic!("cannot connect: {}", e),
                    Err(_) => n += 1,
                }
                std::thread::sleep(std::time::Duration::from_millis(50));
            };
            self.socks.push((t, c2s.clone(), s2c.clone()));
            return (c2s, s2c);
        }
        let w = {
            let mut a = self.app.lock().unwrap();
            a.conns.push_back((Rd(c2s.clone()), Wr(s2c.clone())));
            a.waker.take()
        };
        w.map(|w| w.wake());
        (c2s, s2c)
    }
    pub fn proc_(&self, i: usize) -> Proc {
        self.app.lock().unwrap().procs[i].clone()
    }
}

pub fn s(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend(b);
    v
}
pub fn u(n: u32) -> Vec<u8> {
    n.to_be_bytes().to_vec()
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
pub fn get_u32(b: &[u8]) -> u32 {
    u32::from_be_bytes(b[..4].try_into().unwrap())
}
pub fn get_s(b: &[u8]) -> (&[u8], &[u8]) {
    let n = get_u32(b) as usize;
    (&b[4..4 + n], &b[4 + n..])
}
fn plain(payload: &[u8]) -> Vec<u8> {
    let mut pad = 8 - (5 + payload.len()) % 8;
    if pad < 4 {
        pad += 8;
    }
    let mut v = u((1 + payload.len() + pad) as u32);
    v.push(pad as u8);
    v.extend(payload);
    v.extend(vec![0; pad]);
    v
}
pub fn kexinit(lists: &[&str; 10]) -> Vec<u8> {
    let mut v = vec![20];
    v.extend([9; 16]);
    for l in lists {
        v.extend(s(l.as_bytes()));
    }
    v.extend([0; 5]);
    v
}
pub const CHACHA: &str = "chacha20-poly1305@openssh.com";
pub const LISTS: [&str; 10] =
    ["curve25519-sha256", "ecdsa-sha2-nistp256", CHACHA, CHACHA, "", "", "none", "none", "", ""];

pub struct Client {
    pub c2s: Pipe,
    pub s2c: Pipe,
    buf: Vec<u8>,
    pub out: Option<ChaCha20Poly1305>,
    inp: Option<ChaCha20Poly1305>,
    len: Option<usize>,
    pub session: Vec<u8>,
}
impl Client {
    pub fn new(w: &mut World) -> Self {
        let (c2s, s2c) = w.raw();
        Client { c2s, s2c, buf: Vec::new(), out: None, inp: None, len: None, session: Vec::new() }
    }
    /// Complete the key exchange.
    pub fn kex(&mut self, w: &mut World) -> Result<(), String> {
        self.kex_with(w, "SSH-2.0-c", &kexinit(&LISTS))
    }
    pub fn kex_with(&mut self, w: &mut World, ident: &str, init: &[u8]) -> Result<(), String> {
        self.c2s.put(format!("{}\r\n", ident).as_bytes());
        self.c2s.put(&plain(init));
        let secret = x25519_dalek::EphemeralSecret::new(rand::rngs::OsRng);
        let public = x25519_dalek::PublicKey::from(&secret);
        self.c2s.put(&plain(&cat(&[&[30], &s(public.as_bytes())])));
        w.run();
        self.buf.extend(self.s2c.take());
        let nl = self.buf.windows(2).position(|x| x == b"\r\n").ok_or("no identification")?;
        let sid: Vec<u8> = self.buf.drain(..nl + 2).take(nl).collect();
        let sinit = self.recv(w).ok_or("no kexinit")?;
        let reply = self.recv(w).ok_or("no kex reply")?;
        if reply[0] != 31 {
            return Err("expected kex reply".into());
        }
        let (hostkey, r) = get_s(&reply[1..]);
        let (eph, r) = get_s(r);
        let (sig, _) = get_s(r);
        let (name, k) = get_s(hostkey);
        let (identifier, k) = get_s(k);
        let (q, _) = get_s(k);
        let eph: [u8; 32] = eph.try_into().map_err(|_| "ephemeral")?;
        let shared = secret.diffie_hellman(&x25519_dalek::PublicKey::from(eph));
        let mut tmp = [0; 1024];
        let id = |b| Identifier::new(b).unwrap();
        let hash = KeyExchangeDigest::<sha2::Sha256>::default()
            .update(&id(ident.as_bytes()))
            .update(&id(&sid))
            .update(init)
            .update(&sinit)
            .update(&mut tmp, &Key { name, blob: KeyBlob { identifier, q } })
            .update(public.as_bytes())
            .update(&eph)
            .update(shared.as_bytes());
        let hash: [u8; 32] = hash.into();
        // Signature: two positive integers of up to 33 bytes.
        let (_, sb) = get_s(sig);
        let (sb, _) = get_s(sb);
        let (r, sb) = get_s(sb);
        let (ss, _) = get_s(sb);
        let mut raw = [0u8; 64];
        for (part, dst) in [(r, 32), (ss, 64)] {
            let p: &[u8] = if part.len() == 33 { &part[1..] } else { part };
            raw[dst - p.len()..dst].copy_from_slice(p);
        }
        {
            use ecdsa::signature::Verifier;
            let vk = p256::ecdsa::VerifyingKey::from_sec1_bytes(q).map_err(|e| e.to_string())?;
            let sg = p256::ecdsa::Signature::try_from(&raw[..]).map_err(|e| e.to_string())?;
            vk.verify(&hash, &sg).map_err(|_| "signature does not verify")?;
        }
        if self.recv(w).as_deref() != Some(&[21]) {
            return Err("expected newkeys".into());
        }
        self.c2s.put(&plain(&[21]));
        let m = KeyMaterial::<sha2::Sha256>::new(*shared.as_bytes(), hash);
        self.out = Some(ChaCha20Poly1305::from_key_material(&m, Direction::ClientToServer, 3));
        self.inp = Some(ChaCha20Poly1305::from_key_material(&m, Direction::ServerToClient, 3));
        self.session = hash.to_vec();
        Ok(())
    }
    /// Key exchange and login.
    pub fn login(w: &mut World, user: &str) -> Client {
        let mut c = Client::new(w);
        c.kex(w).unwrap();
        c.userauth(w);
        c.send(&cat(&[&[50], &s(user.as_bytes()), &s(b"ssh-connection"), &s(b"none")]));
        assert_eq!(c.recv(w).as_deref(), Some(&[52][..]), "login");
        c
    }
    pub fn userauth(&mut self, w: &mut World) {
        self.send(&cat(&[&[5], &s(b"ssh-userauth")]));
        assert_eq!(self.recv(w).expect("service accept")[0], 6);
    }
    /// The bytes of an encrypted packet.
    pub fn seal(&mut self, payload: &[u8]) -> Vec<u8> {
        let mut pad = 8 - (1 + payload.len()) % 8;
        if pad < 4 {
            pad += 8;
        }
        let mut v = u((1 + payload.len() + pad) as u32);
        v.push(pad as u8);
        v.extend(payload);
        v.extend(vec![0; pad + 16]);
        self.out.as_mut().unwrap().encrypt(&mut v);
        v
    }
    pub fn send(&mut self, payload: &[u8]) {
        let v = self.seal(payload);
        self.c2s.put(&v);
    }
    /// The next message, if the server can send one without anything else happening.
    pub fn recv(&mut self, w: &mut World) -> Option<Vec<u8>> {
        w.run();
        loop {
            self.buf.extend(self.s2c.take());
            if let Some(m) = self.parse() {
                return Some(m);
            }
            w.run();
            if self.s2c.0.lock().unwrap().buf.is_empty() {
                return None;
            }
        }
    }
    fn parse(&mut self) -> Option<Vec<u8>> {
        let tag = if self.inp.is_some() { 16 } else { 0 };
        if self.buf.len() < 4 {
            return None;
        }
        if self.len.is_none() {
            let mut l: [u8; 4] = self.buf[..4].try_into().unwrap();
            if let Some(c) = self.inp.as_mut() {
                l = c.decrypt_length(l).unwrap();
            }
            let n = u32::from_be_bytes(l) as usize;
            assert!(n < 40000, "garbage packet length {}", n);
            self.len = Some(n);
        }
        let n = self.len.unwrap();
        if self.buf.len() < 4 + n + tag {
            return None;
        }
        let mut p: Vec<u8> = self.buf.drain(..4 + n + tag).collect();
        self.len = None;
        if let Some(c) = self.inp.as_mut() {
            c.decrypt_data(&mut p).map_err(|_| "bad packet from the server").unwrap();
        }
        let pad = p[4] as usize;
        Some(p[5..4 + n - pad].to_vec())
    }
    pub fn recv_all(&mut self, w: &mut World) -> Vec<Vec<u8>> {
        let mut v = Vec::new();
        while let Some(m) = self.recv(w) {
            v.push(m)
        }
        v
    }
    pub fn open(&mut self, w: &mut World, id: u32, window: u32, max: u32) -> u32 {
        self.send(&cat(&[&[90], &s(b"session"), &u(id), &u(window), &u(max)]));
        let m = self.recv(w).expect("open confirmation");
        assert_eq!(m[0], 91, "open confirmation");
        assert_eq!(get_u32(&m[1..]), id, "open confirmation");
        get_u32(&m[5..])
    }
    pub fn exec(&mut self, ch: u32, command: &str, reply: bool) {
        self.send(&cat(&[&[98], &u(ch), &s(b"exec"), &[reply as u8], &s(command.as_bytes())]));
    }
    pub fn data(&mut self, ch: u32, d: &[u8]) {
        self.send(&cat(&[&[94], &u(ch), &s(d)]));
    }
    pub fn eof(&mut self, ch: u32) {
        self.send(&cat(&[&[96], &u(ch)]));
    }
    pub fn close(&mut self, ch: u32) {
        self.send(&cat(&[&[97], &u(ch)]));
    }
}
