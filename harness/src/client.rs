//! An independent SSH client (own codec, own crypto, own state machine) that drives the server in
//! the simulation and judges everything it receives online against the SSH RFCs.

use crate::crypto::{self, mpint_content, put_str};
use crate::rng::R;
use crate::sim::{content, Env, Ev, PipeR, PipeW, World};
use crate::wire::{self, F};
use futures::io::{AsyncRead, AsyncWriteExt};
use std::collections::{BTreeMap, VecDeque};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

// ---------------------------------------------------------------- verdicts

#[derive(Default)]
pub struct BoardState {
    pub viol: Vec<(String, String)>,
    pub pending: BTreeMap<u64, (String, String)>,
    next: u64,
    pub counters: BTreeMap<String, u64>,
    pub sigs: Vec<Vec<u8>>,
    /// All padding of each connection, if wanted.
    pub paddings: Option<BTreeMap<String, Vec<u8>>>,
}

/// Where monitors report. Tags are the properties a violation belongs to, "any" is all of them.
#[derive(Clone, Default)]
pub struct Board(pub Arc<Mutex<BoardState>>);

impl Board {
    pub fn fail(&self, tags: &str, text: String) {
        let mut b = self.0.lock().unwrap();
        if b.viol.len() < 50 {
            b.viol.push((tags.into(), text));
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        let mut b = self.0.lock().unwrap();
        if let Some(v) = b.counters.get_mut(k) {
            *v += n;
        } else {
            b.counters.insert(k.into(), n);
        }
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut b = self.0.lock().unwrap();
        let v = b.counters.entry(k.into()).or_insert(0);
        *v = (*v).max(n);
    }
    pub fn expect(&self, tags: &str, text: String) -> Expect {
        let mut b = self.0.lock().unwrap();
        b.next += 1;
        let id = b.next;
        b.pending.insert(id, (tags.into(), text));
        Expect(self.clone(), id)
    }
}

pub struct Expect(Board, u64);
impl Drop for Expect {
    fn drop(&mut self) {
        (self.0).0.lock().unwrap().pending.remove(&self.1);
    }
}

// ---------------------------------------------------------------- connection

/// Everything that must hold for a client that behaves.
pub const ALL: &str = "any";

pub struct Req {
    pub what: &'static str,
    /// Command if this would start a process.
    pub start: Option<Vec<u8>>,
}

pub struct Chan {
    pub local: u32,
    pub remote: Option<u32>,
    pub open_failed: Option<u32>,
    pub credit: u64,
    pub maxpkt: u32,
    pub limited: bool,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub eof: bool,
    pub status: Vec<u32>,
    pub server_closed: bool,
    pub eof_sent: bool,
    pub close_sent: bool,
    pub swin: u64,
    pub smax: u32,
    pub reqs: VecDeque<Req>,
    pub replies: u64,
    /// Command of the process that was started, as far as the client can know.
    pub started: Option<Vec<u8>>,
    /// All commands tried on this channel.
    pub commands: Vec<Vec<u8>>,
    pub sent: Vec<u8>,
    /// Bytes of extended data sent.
    pub ext_sent: u64,
    /// Sum of the server's window adjustments.
    pub granted: u64,
    pub order: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// The server closed the connection between packets.
    Closed,
    /// It closed it in the middle of a packet.
    Truncated,
    Error,
    /// The client gave up the connection.
    Aborted,
    /// Not a valid packet.
    Bad(String),
}

pub struct CS {
    /// The largest window a channel was opened with.
    pub offered: u64,
    wk: Vec<Waker>,
    out: VecDeque<u8>,
    fin: bool,
    abort: bool,
    pub out_dead: bool,
    pub key_out: Option<[u8; 64]>,
    pub seq_out: u64,
    r: R,
    pub ended: Option<End>,
    pub expect_end: bool,
    pub chans: BTreeMap<u32, Chan>,
    pub done: Vec<Chan>,
    /// Largest number of extra padding blocks.
    pub extra_pad: usize,
    pub session_id: [u8; 32],
    pub packets_in: u64,
    pub success: u64,
    /// Keep reading paused while set.
    pub paused: bool,
    /// Recorded ciphertext of each packet that was sent.
    pub record: Option<Vec<Vec<u8>>>,
    pub extra_msgs: Vec<Vec<u8>>,
    /// Send only this many bytes for now.
    pub limit: Option<u64>,
    pub written: u64,
}

impl CS {
    pub fn out_len(&self) -> usize {
        self.out.len()
    }
}

#[derive(Clone)]
pub struct Conn {
    pub s: Arc<Mutex<CS>>,
    pub env: Env,
    pub board: Board,
    pub world: World,
    pub name: String,
}

pub struct Rd {
    io: PipeR,
    pub key: Option<[u8; 64]>,
    pub seq: u64,
    conn: Conn,
    pub constant: Option<u8>,
}

pub fn wake(s: &mut CS) {
    for w in std::mem::take(&mut s.wk) {
        w.wake();
    }
}

fn add_waker(s: &mut CS, w: &Waker) {
    if !s.wk.iter().any(|x| x.will_wake(w)) {
        s.wk.push(w.clone());
    }
}

impl Conn {
    pub fn new(world: &World, board: &Board, name: String, r: &mut R, rd: PipeR, wr: PipeW) -> (Conn, Rd) {
        let conn = Conn {
            s: Arc::new(Mutex::new(CS {
                offered: 0,
                wk: Vec::new(),
                out: VecDeque::new(),
                fin: false,
                abort: false,
                out_dead: false,
                key_out: None,
                seq_out: 0,
                r: r.fork(),
                ended: None,
                expect_end: false,
                chans: BTreeMap::new(),
                done: Vec::new(),
                extra_pad: *r.pick(&[0, 0, 3, 30]),
                session_id: [0; 32],
                packets_in: 0,
                success: 0,
                paused: false,
                record: None,
                extra_msgs: Vec::new(),
                limit: None,
                written: 0,
            })),
            env: world.env.clone(),
            board: board.clone(),
            world: world.clone(),
            name,
        };
        world.env.spawn(writer(conn.clone(), wr));
        let rd = Rd { io: rd, key: None, seq: 0, conn: conn.clone(), constant: None };
        (conn, rd)
    }

    pub fn lock(&self) -> std::sync::MutexGuard<'_, CS> {
        self.s.lock().unwrap()
    }

    pub fn fail(&self, tags: &str, text: String) {
        self.board.fail(tags, format!("{}: {}", self.name, text));
    }

    /// Bytes as they are.
    pub fn raw(&self, b: &[u8]) {
        let mut s = self.lock();
        s.out.extend(b);
        wake(&mut s);
    }

    /// Frame and, once keys are in use, encrypt a message.
    pub fn packet(&self, payload: &[u8]) -> Vec<u8> {
        let mut s = self.lock();
        let extra = s.extra_pad;
        let enc = s.key_out.is_some();
        let p = frame(&mut s.r, payload, enc, extra);
        let seq = s.seq_out;
        s.seq_out += 1;
        match s.key_out {
            Some(k) => crypto::seal(&k, seq, &p),
            None => p,
        }
    }

    pub fn send(&self, payload: &[u8]) {
        let p = self.packet(payload);
        self.env.trace(|| format!("{} -> {}", self.name, describe(payload)));
        let mut s = self.lock();
        if let Some(r) = s.record.as_mut() {
            r.push(p.clone());
        }
        s.out.extend(&p);
        wake(&mut s);
    }

    /// Like `send`, of a packet that is already framed, possibly wrongly.
    pub fn send_framed(&self, p: &[u8]) {
        let mut s = self.lock();
        let seq = s.seq_out;
        s.seq_out += 1;
        let p = match s.key_out {
            Some(k) => crypto::seal(&k, seq, p),
            None => p.to_vec(),
        };
        s.out.extend(&p);
        wake(&mut s);
        drop(s);
        self.env.trace(|| format!("{} -> framed {:02x?}", self.name, &p[..p.len().min(16)]));
    }

    pub fn send_msg(&self, ty: u8, f: Vec<F>) {
        self.send(&wire::encode(&wire::Msg { ty, f }))
    }

    /// Close the sending direction once everything was sent.
    pub fn finish(&self) {
        let mut s = self.lock();
        s.fin = true;
        wake(&mut s);
    }

    /// Drop the connection at once.
    pub fn abort(&self) {
        let mut s = self.lock();
        s.abort = true;
        s.expect_end = true;
        wake(&mut s);
    }

    pub fn pause(&self, v: bool) {
        let mut s = self.lock();
        s.paused = v;
        wake(&mut s);
    }

    /// Wait for something. None: the connection ended first.
    pub async fn wait<T>(&self, tags: &str, what: &str, mut f: impl FnMut(&mut CS) -> Option<T>) -> Option<T> {
        let mut e = None;
        futures::future::poll_fn(|cx| {
            let mut s = self.lock();
            if let Some(v) = f(&mut s) {
                return Poll::Ready(Some(v));
            }
            if s.ended.is_some() {
                return Poll::Ready(None);
            }
            add_waker(&mut s, cx.waker());
            drop(s);
            if e.is_none() && !tags.is_empty() {
                e = Some(self.board.expect(tags, format!("{}: waits for {}", self.name, what)));
            }
            Poll::Pending
        })
        .await
    }

    /// All bytes handed to the transport.
    pub async fn drained(&self) {
        self.wait("", "", |s| (s.out.is_empty() || s.out_dead).then_some(())).await;
    }
}

pub fn frame(r: &mut R, payload: &[u8], enc: bool, extra: usize) -> Vec<u8> {
    let base = if enc { 1 } else { 5 } + payload.len();
    let mut pad = 8 - base % 8;
    if pad < 4 {
        pad += 8;
    }
    let more = r.below(extra + 1);
    pad += 8 * more;
    while pad > 255 {
        pad -= 8;
    }
    let mut p = ((1 + payload.len() + pad) as u32).to_be_bytes().to_vec();
    p.push(pad as u8);
    p.extend_from_slice(payload);
    p.extend(r.bytes(pad));
    p
}

/// A packet with the wrong length or padding.
pub fn misframe(r: &mut R, payload: &[u8], enc: bool) -> Vec<u8> {
    let mut f = frame(r, payload, enc, 0);
    let n = f.len() - 4;
    match r.below(6) {
        // The padding takes all of the packet, or more.
        0 => f[4] = (n as i32 + r.below(4) as i32 - 2).clamp(0, 255) as u8,
        1 => {
            let n = *r.pick(&[8usize, 12, 16, 24]);
            let n = if enc { n } else { n / 8 * 8 + 4 };
            f = (n as u32).to_be_bytes().to_vec();
            f.push((n as i32 + r.below(4) as i32 - 2) as u8);
            f.extend(r.bytes(n - 1));
        }
        2 => f[4] = r.u8(),
        3 => {
            // A length that is not a multiple of the block size.
            let n = r.below(40);
            f = (n as u32).to_be_bytes().to_vec();
            f.extend(r.bytes(n));
            if n > 0 && r.chance(1, 2) {
                f[4] = r.below(n + 3) as u8;
            }
        }
        4 => {
            let n = n + r.range(1, 7);
            f[..4].copy_from_slice(&(n as u32).to_be_bytes());
            f.resize(4 + n, 0);
        }
        _ => {
            // No room for a padding length.
            f = vec![0; 4];
        }
    }
    f
}

pub fn describe(payload: &[u8]) -> String {
    match wire::parse(payload) {
        Some(m) => {
            let f: Vec<String> = m
                .f
                .iter()
                .map(|f| match f {
                    F::U(v) => v.to_string(),
                    F::B(v) => v.to_string(),
                    F::S(v) if v.len() <= 24 => format!("{:?}", String::from_utf8_lossy(v)),
                    F::S(v) => format!("[{} bytes]", v.len()),
                })
                .collect();
            format!("msg {} ({})", m.ty, f.join(", "))
        }
        None => format!("{} bytes, type {:?}", payload.len(), payload.first()),
    }
}

async fn writer(c: Conn, mut wr: PipeW) {
    loop {
        enum Next {
            Data(Vec<u8>),
            Stop,
        }
        let next = futures::future::poll_fn(|cx| {
            let mut s = c.lock();
            if s.abort {
                return Poll::Ready(Next::Stop);
            }
            let room = s.limit.map_or(u64::MAX, |l| l.saturating_sub(s.written));
            if !s.out.is_empty() && room == 0 {
                add_waker(&mut s, cx.waker());
                return Poll::Pending;
            }
            if !s.out.is_empty() {
                let n = s.out.len().min(1024).min(room.min(1 << 20) as usize);
                let v: Vec<u8> = s.out.iter().take(n).copied().collect();
                return Poll::Ready(Next::Data(v));
            }
            if s.fin {
                return Poll::Ready(Next::Stop);
            }
            add_waker(&mut s, cx.waker());
            Poll::Pending
        })
        .await;
        match next {
            Next::Stop => return,
            Next::Data(v) => {
                // A blocked write must not outlive an abort.
                let r = {
                    let w = wr.write(&v);
                    futures::pin_mut!(w);
                    futures::future::poll_fn(|cx| {
                        {
                            let mut s = c.lock();
                            if s.abort {
                                return Poll::Ready(Err(std::io::ErrorKind::Other.into()));
                            }
                            add_waker(&mut s, cx.waker());
                        }
                        w.as_mut().poll(cx)
                    })
                    .await
                };
                let mut s = c.lock();
                match r {
                    Ok(n) => {
                        s.out.drain(..n);
                        s.written += n as u64;
                        if s.out.is_empty() {
                            wake(&mut s);
                        }
                    }
                    Err(_) => {
                        s.out_dead = true;
                        s.out.clear();
                        wake(&mut s);
                        return;
                    }
                }
            }
        }
    }
}
use std::future::Future;

impl Rd {
    async fn exact(&mut self, n: usize, start: bool) -> Result<Vec<u8>, End> {
        let mut buf = vec![0; n];
        let mut i = 0;
        let conn = self.conn.clone();
        while i < n {
            let io = &mut self.io;
            let k = futures::future::poll_fn(|cx| {
                {
                    let mut s = conn.lock();
                    if s.abort {
                        return Poll::Ready(Err(End::Aborted));
                    }
                    add_waker(&mut s, cx.waker());
                    if s.paused {
                        return Poll::Pending;
                    }
                }
                Pin::new(&mut *io).poll_read(cx, &mut buf[i..]).map_err(|_| End::Error)
            })
            .await?;
            if k == 0 {
                return Err(if start && i == 0 { End::Closed } else { End::Truncated });
            }
            i += k;
        }
        Ok(buf)
    }

    pub async fn byte(&mut self) -> Result<u8, End> {
        Ok(self.exact(1, true).await?[0])
    }

    /// The server's identification line without line end.
    pub async fn line(&mut self) -> Result<Vec<u8>, End> {
        let mut v = Vec::new();
        loop {
            v.push(self.exact(1, v.is_empty()).await?[0]);
            if v.ends_with(b"\r\n") {
                v.truncate(v.len() - 2);
                return Ok(v);
            }
            if v.len() > 300 {
                return Err(End::Bad("identification does not end".into()));
            }
        }
    }

    /// The next message.
    pub async fn recv(&mut self) -> Result<Vec<u8>, End> {
        let bad = |t: String| Err(End::Bad(t));
        let head: [u8; 4] = self.exact(4, true).await?.try_into().unwrap();
        let packet = match self.key {
            None => {
                let n = u32::from_be_bytes(head) as usize;
                if n > 35000 || n < 8 {
                    return bad(format!("packet length {}", n));
                }
                if (n + 4) % 8 != 0 {
                    return bad(format!("packet length {} is not aligned", n));
                }
                self.exact(n, false).await?
            }
            Some(k) => {
                let n = crypto::open_len(&k, self.seq, head) as usize;
                if n > 35000 || n < 8 || n % 8 != 0 {
                    return bad(format!("packet {}: length {}", self.seq, n));
                }
                let mut d = head.to_vec();
                d.extend(self.exact(n + 16, false).await?);
                match crypto::open(&k, self.seq, &d) {
                    Some(p) => p[4..].to_vec(),
                    None => return bad(format!("packet {} does not authenticate", self.seq)),
                }
            }
        };
        self.seq += 1;
        let pad = packet[0] as usize;
        if pad < 4 || pad + 1 >= packet.len() {
            return bad(format!("{} bytes of padding in {}", pad, packet.len()));
        }
        let (p, padding) = packet.split_at(packet.len() - pad);
        if let Some(c) = self.constant {
            self.conn.board.count("padding_bytes", pad as u64);
            if padding.iter().any(|b| *b != c) {
                self.conn.fail(
                    "C11",
                    format!("padding {:02x?} does not come from the random generator (always {:02x})", padding, c),
                );
            }
        }
        if let Some(m) = &mut self.conn.board.0.lock().unwrap().paddings {
            m.entry(self.conn.name.clone()).or_default().extend_from_slice(padding);
        }
        let mut s = self.conn.lock();
        s.packets_in += 1;
        drop(s);
        self.conn.board.count("packets_received", 1);
        Ok(p[1..].to_vec())
    }

    /// The next message that is not noise.
    pub async fn recv_real(&mut self) -> Result<Vec<u8>, End> {
        loop {
            let m = self.recv().await?;
            self.conn.env.trace(|| format!("{} <- {}", self.conn.name, describe(&m)));
            if !matches!(m.first(), Some(2) | Some(4)) {
                return Ok(m);
            }
        }
    }
}

// ---------------------------------------------------------------- key exchange

pub const KEX: &[u8] = b"curve25519-sha256";
pub const HOSTKEY: &[u8] = b"ecdsa-sha2-nistp256";
pub const CIPHER: &[u8] = b"chacha20-poly1305@openssh.com";

const REQUIRED: &[&[u8]] = &[KEX, HOSTKEY, CIPHER, b"none"];

/// How a client does the handshake.
#[derive(Clone)]
pub struct Hs {
    pub preamble: Vec<u8>,
    pub ident: Vec<u8>,
    /// kex, hostkey, cipher c2s, s2c, mac, mac, compression c2s, s2c, languages
    pub lists: [Vec<u8>; 10],
    pub follows: bool,
    /// Sent right after the kexinit, to be ignored by the server.
    pub guess: Option<Vec<u8>>,
    pub cookie: [u8; 16],
    /// Instead of a genuine ephemeral key.
    pub eph: Option<Vec<u8>>,
    pub secret: [u8; 32],
    /// Send as much as possible before reading.
    pub pipeline: bool,
    /// Instead of the new keys message.
    pub newkeys: Option<Vec<u8>>,
}

impl Hs {
    pub fn plain(r: &mut R) -> Hs {
        let mut lists: [Vec<u8>; 10] = Default::default();
        lists[0] = KEX.to_vec();
        lists[1] = HOSTKEY.to_vec();
        lists[2] = CIPHER.to_vec();
        lists[3] = CIPHER.to_vec();
        lists[4] = b"hmac-sha2-256".to_vec();
        lists[5] = b"hmac-sha2-256".to_vec();
        lists[6] = b"none".to_vec();
        lists[7] = b"none".to_vec();
        Hs {
            preamble: Vec::new(),
            ident: b"SSH-2.0-reference".to_vec(),
            lists,
            follows: false,
            guess: None,
            cookie: r.bytes(16).try_into().unwrap(),
            eph: None,
            secret: r.bytes(32).try_into().unwrap(),
            pipeline: r.chance(1, 2),
            newkeys: None,
        }
    }

    /// Anything a server has to accept.
    pub fn random(r: &mut R) -> Hs {
        let mut h = Hs::plain(r);
        if r.chance(1, 3) {
            h.preamble = gen_preamble(r);
        }
        h.ident = gen_ident(r);
        for i in 0..10 {
            if r.chance(1, 3) {
                h.lists[i] = around(r, if i < 4 || i == 6 || i == 7 { &h.lists[i] } else { b"" });
            }
        }
        if r.chance(1, 12) {
            // Much of what fits in a packet.
            let i = r.below(10);
            let name: &[u8] = if i < 4 || i == 6 || i == 7 { h.lists[i].rsplit(|c| *c == b',').find(|n| REQUIRED.contains(n)).unwrap() } else { b"" };
            let name = name.to_vec();
            // The payload has 62 bytes and the lists.
            let most = 32_768 - 62 - h.lists.iter().map(|l| l.len()).sum::<usize>() + h.lists[i].len();
            let n = match r.below(5) {
                0 => r.range(3900, 4300),
                1 => r.range(8000, 8400),
                2 => most - r.below(300),
                3 => most,
                _ => r.below(28_000),
            };
            // Other names before or after the wanted one, of that length together.
            let n = n.max(name.len() + 2);
            let mut l: Vec<u8> = (0..if name.is_empty() { n } else { n - name.len() - 1 }).map(|_| b'a' + r.below(26) as u8).collect();
            let mut k = 0;
            loop {
                k += r.range(1, 61);
                if k + 1 >= l.len() {
                    break;
                }
                l[k] = b',';
                k += 1;
            }
            if !name.is_empty() {
                l = if r.chance(1, 2) { [&name[..], b",", &l[..]].concat() } else { [&l[..], b",", &name[..]].concat() };
            }
            h.lists[i] = l;
        }
        // A guess is right if the first of both lists is what the server uses.
        let right = wire::names_of(&h.lists[0]).first().map_or(false, |n| n.as_bytes() == KEX)
            && wire::names_of(&h.lists[1]).first().map_or(false, |n| n.as_bytes() == HOSTKEY);
        if r.chance(1, 3) {
            h.follows = true;
            if !right {
                let ty = *r.pick(&[30u8, 30, 30, 34, 2]);
                let n = r.below(300);
                let mut p = vec![ty];
                if r.chance(1, 2) {
                    put_str(&mut p, &r.bytes(n));
                } else {
                    p.extend(r.bytes(n));
                }
                h.guess = Some(p);
            }
        }
        h
    }

    pub fn kexinit(&self) -> Vec<u8> {
        let mut f = vec![F::S(self.cookie.to_vec())];
        f.extend(self.lists.iter().map(|l| F::S(l.clone())));
        f.push(F::B(self.follows));
        wire::encode(&wire::Msg { ty: 20, f })
    }

    pub fn public(&self) -> Vec<u8> {
        match &self.eph {
            Some(e) => e.clone(),
            None => x25519_dalek::x25519(self.secret, x25519_dalek::X25519_BASEPOINT_BYTES).to_vec(),
        }
    }
}

/// A list with other names around the wanted one.
pub fn around(r: &mut R, name: &[u8]) -> Vec<u8> {
    const OTHER: &[&[u8]] = &[
        b"ecdh-sha2-nistp256", b"aes128-ctr", b"zlib@openssh.com", b"x", b"curve25519-sha25", b"curve25519-sha2567",
        b"ssh-ed25519", b"nonee", b"non", b"curve25519-sha256@libssh.org", b"chacha20-poly1305", b"en", b"NONE",
        b"ext-info-c", b"kex-strict-c-v00@openssh.com",
    ];
    let mut v: Vec<Vec<u8>> = Vec::new();
    if !name.is_empty() {
        v.push(name.to_vec());
    }
    for _ in 0..r.below(6) {
        let i = r.below(v.len() + 1);
        v.insert(i, r.pick(OTHER).to_vec());
    }
    if r.chance(1, 10) {
        let n = r.range(1, 300);
        let long: Vec<u8> = (0..n).map(|_| b'a' + r.below(26) as u8).collect();
        let i = r.below(v.len() + 1);
        v.insert(i, long);
    }
    v.join(&[b','][..])
}

/// Lines a client may send before its identification.
pub fn gen_preamble(r: &mut R) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..r.range(1, 4) {
        let line: Vec<u8> = match r.below(9) {
            0 => vec![],
            1 => b"S".to_vec(),
            2 => b"SS".to_vec(),
            3 => b"SSH".to_vec(),
            4 => b"SSH2.0-x".to_vec(),
            5 => b"ssh-2.0-x".to_vec(),
            6 => b" SSH-2.0-x".to_vec(),
            7 => {
                let n = r.below(600);
                r.bytes(n)
            }
            _ => {
                let n = r.below(30);
                (0..n).map(|_| *r.pick(&[b'S', b'S', b'H', b'-', b'2', b'\r', b' ', b'\n'])).collect()
            }
        };
        // No line end and no identification inside; bare CR is allowed.
        let mut l: Vec<u8> = Vec::new();
        for b in line {
            if b == b'\n' {
                continue;
            }
            l.push(b);
        }
        if l.starts_with(b"SSH-") {
            l[0] = b'x';
        }
        v.extend(l);
        v.extend_from_slice(b"\r\n");
    }
    v
}

/// An identification of at most 253 bytes.
pub fn gen_ident(r: &mut R) -> Vec<u8> {
    let n = match r.below(5) {
        0 => 0,
        1 => 245,
        2 => r.range(240, 245),
        3 => r.below(245),
        _ => r.below(30),
    };
    let mut v = b"SSH-2.0-".to_vec();
    let style = r.below(3);
    while v.len() < 8 + n {
        let c = match style {
            0 => r.range(32, 126) as u8,
            1 => r.u8(),
            _ => *r.pick(&[b'\r', b'\r', b'S', b'-', 0, 255, b' ']),
        };
        if c == b'\n' && *v.last().unwrap() == b'\r' {
            continue;
        }
        v.push(c);
    }
    v
}

#[derive(Clone)]
pub struct Sess {
    pub id: [u8; 32],
    pub server_ident: Vec<u8>,
    pub server_kexinit: Vec<u8>,
    pub server_eph: Vec<u8>,
    pub secret: [u8; 32],
    pub key_out: [u8; 64],
    pub key_in: [u8; 64],
}

/// What the client got before the connection ended.
#[derive(Default, Clone, Debug)]
pub struct Seen {
    pub ident: Option<Vec<u8>>,
    /// Types of the plain packets received.
    pub types: Vec<u8>,
    pub end: Option<End>,
}

/// Do the key exchange and judge it. Err: the server ended the connection.
pub async fn handshake(c: &Conn, rd: &mut Rd, h: &Hs, host_key: &[u8], ident: &[u8]) -> Result<Sess, Seen> {
    let mut seen = Seen::default();
    let mut first = h.preamble.clone();
    first.extend_from_slice(&h.ident);
    first.extend_from_slice(b"\r\n");
    let ic = h.kexinit();
    let q_c = h.public();
    let send_rest = || {
        c.raw(&first);
        c.send(&ic);
        if let Some(g) = &h.guess {
            c.send(g);
        }
    };
    let send_init = || {
        let mut p = vec![30];
        put_str(&mut p, &q_c);
        c.send(&p);
    };
    if h.pipeline {
        send_rest();
        send_init();
    }
    macro_rules! get {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => {
                    seen.end = Some(e);
                    return Err(seen);
                }
            }
        };
    }
    let e = c.board.expect("C10,C08,C20", format!("{}: waits for the server's identification", c.name));
    let vs = get!(rd.line().await);
    drop(e);
    seen.ident = Some(vs.clone());
    if vs != ident {
        c.fail("C10", format!("server identification {:?}", String::from_utf8_lossy(&vs)));
    }
    let e = c.board.expect("C08,C09,C20", format!("{}: waits for key exchange", c.name));
    let is = get!(rd.recv_real().await);
    seen.types.push(is[0]);
    match wire::parse(&is) {
        Some(m) if m.ty == 20 => {
            for (i, want) in [(1, KEX), (2, HOSTKEY), (3, CIPHER), (4, CIPHER), (7, b"none"), (8, b"none")] {
                match &m.f[i] {
                    F::S(l) if wire::names_of(l).iter().any(|n| n.as_bytes() == want) => {}
                    _ => c.fail("C09", format!("the server does not offer {:?}", String::from_utf8_lossy(want))),
                }
            }
            if let (Some(k), F::S(cookie)) = (rd.constant, &m.f[0]) {
                if cookie.iter().any(|b| *b != k) {
                    c.fail("C11", format!("the cookie {:02x?} is not random", cookie));
                }
            }
        }
        _ => {
            c.fail("C08,C09", format!("instead of kexinit: {}", describe(&is)));
            seen.end = Some(End::Bad("no kexinit".into()));
            return Err(seen);
        }
    }
    if !h.pipeline {
        send_rest();
        send_init();
    }
    let reply = get!(rd.recv_real().await);
    seen.types.push(reply[0]);
    let m = match wire::parse(&reply) {
        Some(m) if m.ty == 31 => m,
        _ => {
            c.fail("C08,C09", format!("instead of a key exchange reply: {}", describe(&reply)));
            seen.end = Some(End::Bad("no reply".into()));
            return Err(seen);
        }
    };
    let f: Vec<Vec<u8>> = m
        .f
        .iter()
        .map(|f| match f {
            F::S(s) => s.clone(),
            _ => unreachable!(),
        })
        .collect();
    let q_s = f[3].clone();
    let mut secret = [0; 32];
    if q_s.len() == 32 && h.eph.is_none() {
        secret = x25519_dalek::x25519(h.secret, q_s.clone().try_into().unwrap());
    } else if h.eph.is_none() {
        c.fail("C08", format!("server ephemeral key of {} bytes", q_s.len()));
        seen.end = Some(End::Bad("ephemeral".into()));
        return Err(seen);
    }
    let mut ks = Vec::new();
    put_str(&mut ks, &f[0]);
    put_str(&mut ks, &f[1]);
    put_str(&mut ks, &f[2]);
    if f[0] != HOSTKEY || f[1] != b"nistp256" || f[2] != host_key {
        c.fail("C08", format!("host key sent is not the configured one: {:?} {:?}", f[0], f[1]));
    }
    let mut hd = Vec::new();
    for s in [&h.ident[..], &vs, &ic, &is, &ks, &q_c, &q_s, &mpint_content(&secret)] {
        put_str(&mut hd, s);
    }
    let hash = crypto::sha256(&hd);
    if f[4] != HOSTKEY {
        c.fail("C08", format!("signature of kind {:?}", f[4]));
    }
    for i in [5, 6] {
        if mpint_content(&f[i]) != f[i] {
            c.fail("C08,C01", format!("signature integer is not a canonical positive mpint: {:02x?}", f[i]));
        }
        if f[i].len() < 32 {
            c.board.count("short_signature_integer", 1);
        }
        if f[i].len() == 33 {
            c.board.count("signature_integer_with_sign_byte", 1);
        }
    }
    if !verify(&f[2], &hash, &f[5], &f[6]) {
        c.fail(
            "C08,C10",
            format!(
                "the signature does not verify over the exchange hash (client identification {:?}, {} preamble bytes)",
                String::from_utf8_lossy(&h.ident),
                h.preamble.len()
            ),
        );
    }
    if secret[0] == 0 {
        c.board.count("secret_with_leading_zero", 1);
    }
    if secret[0] & 0x80 != 0 {
        c.board.count("secret_with_top_bit", 1);
    }
    let key_out: [u8; 64] = crypto::kdf(&secret, &hash, b'C', 64).try_into().unwrap();
    let key_in: [u8; 64] = crypto::kdf(&secret, &hash, b'D', 64).try_into().unwrap();
    let nk = get!(rd.recv_real().await);
    seen.types.push(nk[0]);
    if nk != [21] {
        c.fail("C08,C09", format!("instead of new keys: {}", describe(&nk)));
        seen.end = Some(End::Bad("no new keys".into()));
        return Err(seen);
    }
    rd.key = Some(key_in);
    c.send(h.newkeys.as_deref().unwrap_or(&[21]));
    {
        let mut s = c.lock();
        s.key_out = Some(key_out);
        s.session_id = hash;
    }
    drop(e);
    c.board.count("handshakes", 1);
    Ok(Sess { id: hash, server_ident: vs, server_kexinit: is, server_eph: q_s, secret, key_out, key_in })
}

pub fn verify(point: &[u8], hash: &[u8; 32], r: &[u8], s: &[u8]) -> bool {
    use p256::ecdsa::signature::Verifier;
    let fix = |v: &[u8]| -> Option<[u8; 32]> {
        let i = v.iter().position(|c| *c != 0).unwrap_or(v.len());
        let v = &v[i..];
        if v.len() > 32 {
            return None;
        }
        let mut o = [0; 32];
        o[32 - v.len()..].copy_from_slice(v);
        Some(o)
    };
    let (Some(r), Some(s)) = (fix(r), fix(s)) else { return false };
    let Ok(sig) = p256::ecdsa::Signature::from_scalars(r, s) else { return false };
    let Ok(k) = p256::ecdsa::VerifyingKey::from_sec1_bytes(point) else { return false };
    k.verify(hash, &sig).is_ok()
}

// ---------------------------------------------------------------- authentication

pub fn blob(alg: &[u8], value: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    put_str(&mut v, alg);
    put_str(&mut v, value);
    v
}

/// RFC 4252 section 7
pub fn sign_data(id: &[u8; 32], user: &[u8], service: &[u8], alg: &[u8], key_blob: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    put_str(&mut v, id);
    v.push(50);
    put_str(&mut v, user);
    put_str(&mut v, service);
    put_str(&mut v, b"publickey");
    v.push(1);
    put_str(&mut v, alg);
    put_str(&mut v, key_blob);
    v
}

pub fn auth_req(user: &[u8], service: &[u8], method: &[u8], rest: impl FnOnce(&mut Vec<u8>)) -> Vec<u8> {
    let mut v = vec![50];
    put_str(&mut v, user);
    put_str(&mut v, service);
    put_str(&mut v, method);
    rest(&mut v);
    v
}

pub fn service_request(name: &[u8]) -> Vec<u8> {
    let mut v = vec![5];
    put_str(&mut v, name);
    v
}

/// Request the authentication service and log in with a password.
pub async fn login(c: &Conn, rd: &mut Rd, user: &[u8]) -> Result<(), End> {
    c.send(&service_request(b"ssh-userauth"));
    let pipelined = c.lock().r.chance(1, 2);
    let req = auth_req(user, b"ssh-connection", b"password", |v| {
        v.push(0);
        put_str(v, b"secret")
    });
    if pipelined {
        c.send(&req);
    }
    let e = c.board.expect("C12,C20", format!("{}: waits for service accept", c.name));
    let m = rd.recv_real().await?;
    if m != [&[6][..], &service_request(b"ssh-userauth")[1..]].concat() {
        c.fail("C12", format!("instead of service accept: {}", describe(&m)));
        return Err(End::Bad("service".into()));
    }
    drop(e);
    if !pipelined {
        c.send(&req);
    }
    let e = c.board.expect("C12,C20", format!("{}: waits for login", c.name));
    let m = rd.recv_real().await?;
    drop(e);
    if m != [52] {
        c.fail("C12", format!("instead of success: {}", describe(&m)));
        return Err(End::Bad("login".into()));
    }
    c.lock().success += 1;
    c.board.count("logins", 1);
    Ok(())
}

// ---------------------------------------------------------------- connection protocol

fn u(f: &F) -> u32 {
    match f {
        F::U(v) => *v,
        _ => unreachable!(),
    }
}
fn st(f: &F) -> &[u8] {
    match f {
        F::S(v) => v,
        _ => unreachable!(),
    }
}

/// Receives until the connection ends.
pub async fn reader(c: Conn, mut rd: Rd) {
    let end = loop {
        match rd.recv().await {
            Ok(m) => {
                c.env.trace(|| format!("{} <- {}", c.name, describe(&m)));
                incoming(&c, &m)
            }
            Err(e) => break e,
        }
    };
    c.env.trace(|| format!("{} connection ended: {:?}", c.name, end));
    let mut s = c.lock();
    let expected = s.expect_end;
    s.ended = Some(end.clone());
    wake(&mut s);
    drop(s);
    match end {
        End::Bad(t) => c.fail(ALL, format!("the server's output is not a sequence of valid packets: {}", t)),
        e if !expected => c.fail(ALL, format!("the server ended the connection of a client that behaves ({:?})", e)),
        _ => {}
    }
}

/// Receives everything without judging it, until the connection ends.
pub async fn collect(c: Conn, mut rd: Rd) {
    let end = loop {
        match rd.recv().await {
            Ok(m) => {
                c.env.trace(|| format!("{} <- {}", c.name, describe(&m)));
                let mut s = c.lock();
                s.extra_msgs.push(m);
                wake(&mut s);
            }
            Err(e) => break e,
        }
    };
    c.env.trace(|| format!("{} connection ended: {:?}", c.name, end));
    let mut s = c.lock();
    s.ended = Some(end);
    wake(&mut s);
}

/// What is known about the process a command started.
pub struct ProcInfo {
    pub id: u64,
    pub out: u64,
    pub err: u64,
    pub stdin: Vec<u8>,
    pub stdin_eof: bool,
    pub echoed: bool,
    pub out_broken: bool,
    pub exited: Option<u32>,
    pub ended: bool,
    pub user: u64,
}

pub fn process(w: &World, command: &[u8]) -> Option<ProcInfo> {
    let s = w.s.lock().unwrap();
    s.procs.iter().find(|p| p.command == command).map(|p| ProcInfo {
        id: p.id,
        out: p.out,
        err: p.err,
        stdin: p.stdin.clone(),
        stdin_eof: p.stdin_eof,
        echoed: p.echoed,
        out_broken: p.out_broken,
        exited: p.exited,
        ended: p.ended,
        user: p.user,
    })
}

/// How much input a process has taken; everything if it takes none.
fn taken(w: &World, command: &[u8]) -> Option<u64> {
    let s = w.s.lock().unwrap();
    let p = s.procs.iter().find(|p| p.command == command)?;
    Some(match &p.pipes[0] {
        None => u64::MAX,
        Some(p) => {
            let p = p.s.lock().unwrap();
            if p.rclosed {
                u64::MAX
            } else {
                p.written
            }
        }
    })
}

fn incoming(c: &Conn, payload: &[u8]) {
    let m = match wire::parse(payload) {
        Some(m) => m,
        None => {
            c.fail(ALL, format!("malformed message from the server: {}", describe(payload)));
            return;
        }
    };
    match m.ty {
        2 | 4 => return,
        52 => {
            let mut s = c.lock();
            s.success += 1;
            wake(&mut s);
            drop(s);
            c.fail("C12", "told success more than once".into());
            return;
        }
        91..=100 => {}
        _ => {
            let mut s = c.lock();
            s.extra_msgs.push(payload.to_vec());
            wake(&mut s);
            drop(s);
            c.fail("C18,C12,C14", format!("unexpected {}", describe(payload)));
            return;
        }
    }
    let id = u(&m.f[0]);
    let mut s = c.lock();
    let s = &mut *s;
    if m.ty == 91 {
        s.offered = s.offered.max(u(&m.f[2]) as u64);
    }
    // Remote numbers in use, for the uniqueness of a new one.
    let remotes: Vec<(u32, u32)> =
        s.chans.values().filter(|ch| !(ch.server_closed && ch.close_sent)).filter_map(|ch| ch.remote.map(|r| (ch.local, r))).collect();
    let Some(ch) = s.chans.get_mut(&id) else {
        let closed = s.done.iter().any(|ch| ch.local == id);
        c.fail(
            if closed { "C17,C18" } else { "C18" },
            format!("message for a channel that is {}: {}", if closed { "closed" } else { "not open" }, describe(payload)),
        );
        return;
    };
    let fail = |tags: &str, t: String| {
        c.fail(tags, format!("channel {}: {}: {}", id, t, describe(payload)));
    };
    if ch.order.len() < 400 && !(m.ty == 94 && ch.order.last() == Some(&94)) {
        ch.order.push(m.ty);
    }
    if ch.server_closed {
        fail("C17", "message after close".into());
        return;
    }
    if ch.remote.is_none() && !matches!(m.ty, 91 | 92) {
        fail("C18", "message before the channel was confirmed".into());
        return;
    }
    match m.ty {
        91 => {
            if ch.remote.is_some() || ch.open_failed.is_some() {
                fail("C18", "second answer to open".into());
                return;
            }
            let remote = u(&m.f[1]);
            if let Some((l, _)) = remotes.iter().find(|x| x.1 == remote) {
                fail("C18", format!("identifier {} is in use by channel {}", remote, l));
            }
            ch.remote = Some(remote);
            ch.swin = u(&m.f[2]) as u64;
            ch.smax = u(&m.f[3]);
            if ch.smax == 0 {
                fail("C21", "no packet size".into());
            }
            c.board.count("channels_opened", 1);
        }
        92 => {
            if ch.remote.is_some() || ch.open_failed.is_some() {
                fail("C18", "second answer to open".into());
            }
            ch.open_failed = Some(u(&m.f[1]));
        }
        93 => {
            ch.swin += u(&m.f[1]) as u64;
            ch.granted += u(&m.f[1]) as u64;
            c.board.count("window_adjustments_received", 1);
            let used = ch.ext_sent + ch.commands.iter().find_map(|x| taken(&c.world, x)).unwrap_or(0).min(ch.sent.len() as u64);
            if ch.granted > used {
                fail("C21,C29", format!("the window was increased by {} bytes but only {} were passed on", ch.granted, used));
            }
            if ch.swin > u32::MAX as u64 {
                fail("C21", format!("window of {} bytes", ch.swin));
            }
        }
        94 | 95 => {
            let data = st(&m.f[if m.ty == 94 { 1 } else { 2 }]);
            if ch.eof {
                fail("C16,C17", "data after end-of-file".into());
            }
            if ch.started.is_none() && !ch.reqs.iter().any(|r| r.start.is_some()) && ch.commands.is_empty() {
                fail("C18,C16", "data although nothing was started".into());
            }
            if data.len() as u64 > ch.credit {
                fail("C21", format!("{} bytes of data with {} bytes of window", data.len(), ch.credit));
            }
            if data.len() > ch.maxpkt as usize {
                fail("C21", format!("{} bytes of data with a maximum of {}", data.len(), ch.maxpkt));
            }
            ch.credit = ch.credit.saturating_sub(data.len() as u64);
            if ch.credit == 0 {
                c.board.count("windows_exhausted", 1);
            }
            if m.ty == 94 {
                ch.out.extend_from_slice(data);
                c.board.count("stdout_bytes", data.len() as u64);
            } else {
                if u(&m.f[1]) != 1 {
                    fail("C16", "extended data of another type".into());
                }
                ch.err.extend_from_slice(data);
                c.board.count("stderr_bytes", data.len() as u64);
            }
        }
        96 => {
            if ch.eof {
                fail("C17", "second end-of-file".into());
            }
            ch.eof = true;
            // All output must be there.
            match ch.commands.iter().find_map(|x| process(&c.world, x)) {
                Some(p) => {
                    if !ch.close_sent && (ch.out.len() as u64 != p.out || ch.err.len() as u64 != p.err) {
                        fail(
                            "C16,C17",
                            format!(
                                "end-of-file after {} of {} and {} of {} bytes",
                                ch.out.len(),
                                p.out,
                                ch.err.len(),
                                p.err
                            ),
                        );
                    }
                    c.board.count("eofs", 1);
                }
                None => fail("C17,C18", "end-of-file without a process".into()),
            }
        }
        97 => {
            if !ch.close_sent {
                if ch.commands.is_empty() {
                    fail("C17,C18", "closed by the server without reason".into());
                } else if !ch.eof || ch.status.len() != 1 {
                    fail("C17", format!("close before {}", if ch.eof { "exit status" } else { "end-of-file" }));
                }
            }
            ch.server_closed = true;
            c.board.count("closes", 1);
        }
        98 => {
            let ty = st(&m.f[1]);
            let want = matches!(m.f[2], F::B(true));
            let data = st(&m.f[3]);
            if ty != b"exit-status" || want || data.len() != 4 {
                fail("C17", "unexpected request".into());
            } else {
                let v = u32::from_be_bytes(data.try_into().unwrap());
                if !ch.status.is_empty() {
                    fail("C17", "second exit status".into());
                }
                ch.status.push(v);
                match ch.commands.iter().find_map(|x| process(&c.world, x)) {
                    Some(p) if p.exited == Some(v) => {}
                    Some(p) => fail("C17,C18", format!("exit status {} of a process with {:?}", v, p.exited)),
                    None => fail("C17,C18", "exit status without a process".into()),
                }
                c.board.count("exit_statuses", 1);
            }
        }
        _ => {
            let ok = m.ty == 99;
            ch.replies += 1;
            c.board.count("replies", 1);
            match ch.reqs.pop_front() {
                None => fail("C18", "reply without a request that wants one".into()),
                Some(r) => match r.start {
                    None if ok => fail("C18", format!("success for {}", r.what)),
                    None => {}
                    Some(cmd) => {
                        let running = process(&c.world, &cmd).is_some();
                        if running != ok {
                            fail(
                                "C18",
                                format!("{} but the process was {}started", if ok { "success" } else { "failure" }, if running { "" } else { "not " }),
                            );
                        }
                        if ok {
                            ch.started = Some(cmd);
                        }
                    }
                },
            }
        }
    }
    wake(s);
}

// ---------------------------------------------------------------- sessions

#[derive(Clone, Debug)]
pub enum Step {
    /// A request the server does not support.
    Req { what: &'static str, ty: Vec<u8>, data: Vec<u8>, want: bool },
    /// exec or shell
    Start { command: Option<Vec<u8>>, key: Vec<u8>, want: bool },
    Data(Vec<u8>),
    ExtData(usize),
    Eof,
    /// Wait until all replies are there.
    Replies,
    Yield(usize),
    Message(Vec<u8>),
    Close,
    /// Wait for this much output (or the end of the channel).
    Output(usize),
    Gate(String),
    OpenGate(String),
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub local: u32,
    pub window: u32,
    pub maxpkt: u32,
    pub steps: Vec<Step>,
    /// Grant more when the window is below this; 0: only when it is used up.
    pub below: u64,
    pub grant: (usize, usize),
    pub lazy: usize,
    /// Never grant more than the initial window.
    pub never: bool,
    /// Grant more than a window can hold.
    pub excess: bool,
    /// Use every byte of the server's promised packet size.
    pub full: bool,
    /// Things to do after the server closed its side.
    pub late: Vec<Step>,
    pub late_yield: usize,
    pub open_ty: Vec<u8>,
}

fn msg(ty: u8, f: Vec<F>) -> Vec<u8> {
    wire::encode(&wire::Msg { ty, f })
}

/// One step. False: the channel is over.
async fn step(c: &Conn, local: u32, st: &Step, plan: &Plan, late: bool) -> bool {
    let over = |s: &CS| s.chans.get(&local).map_or(true, |ch| ch.server_closed && !late);
    let remote = match c.lock().chans.get(&local) {
        Some(ch) if late || !ch.server_closed => match ch.remote {
            Some(r) => r,
            None => return false,
        },
        _ => return false,
    };
    match st {
        Step::Req { what, ty, data, want } => {
            let mut s = c.lock();
            let ch = s.chans.get_mut(&local).unwrap();
            if *want && !ch.server_closed {
                ch.reqs.push_back(Req { what, start: None });
            }
            drop(s);
            c.send(&msg(98, vec![F::U(remote), F::S(ty.clone()), F::B(*want), F::S(data.clone())]));
        }
        Step::Start { command, key, want } => {
            let mut s = c.lock();
            let ch = s.chans.get_mut(&local).unwrap();
            if *want {
                ch.reqs.push_back(Req { what: "start", start: Some(key.clone()) });
            }
            ch.commands.push(key.clone());
            drop(s);
            let (ty, data) = match command {
                None => (&b"shell"[..], Vec::new()),
                Some(x) => {
                    let mut d = Vec::new();
                    put_str(&mut d, x);
                    (&b"exec"[..], d)
                }
            };
            c.send(&msg(98, vec![F::U(remote), F::S(ty.to_vec()), F::B(*want), F::S(data)]));
            c.board.count("starts", 1);
        }
        Step::Data(_) | Step::ExtData(_) => {
            let (data, ext) = match st {
                Step::Data(d) => (d.clone(), false),
                Step::ExtData(n) => (vec![0x55; *n], true),
                _ => unreachable!(),
            };
            let mut rest = &data[..];
            while !rest.is_empty() {
                let n = c
                    .wait("", "", |s| {
                        if over(s) {
                            return Some(0);
                        }
                        let ch = s.chans.get_mut(&local).unwrap();
                        if ch.swin == 0 {
                            // A channel that has been closed gets no more of it.
                            return late.then_some(0);
                        }
                        let mut n = (rest.len() as u64).min(ch.swin).min(ch.smax as u64).min(1 << 17) as usize;
                        if !plan.full && s.r.chance(1, 3) {
                            n = s.r.range(1, n);
                        }
                        let ch = s.chans.get_mut(&local).unwrap();
                        ch.swin -= n as u64;
                        if ext {
                            ch.ext_sent += n as u64;
                        } else if !late {
                            ch.sent.extend_from_slice(&rest[..n]);
                        }
                        if ch.swin == 0 {
                            c.board.count("server_windows_exhausted", 1);
                        }
                        Some(n)
                    })
                    .await
                    .unwrap_or(0);
                if n == 0 {
                    return false;
                }
                let (a, b) = rest.split_at(n);
                rest = b;
                if n >= 32768 {
                    c.board.count("full_size_packets", 1);
                }
                if ext {
                    c.send(&msg(95, vec![F::U(remote), F::U(1), F::S(a.to_vec())]));
                } else {
                    c.board.count("stdin_bytes", n as u64);
                    c.send(&msg(94, vec![F::U(remote), F::S(a.to_vec())]));
                }
                // Don't run ahead of the transport by much.
                c.wait("", "", |s| (s.out.len() < 100_000 || s.out_dead).then_some(())).await;
            }
        }
        Step::Eof => {
            c.lock().chans.get_mut(&local).unwrap().eof_sent = true;
            c.send(&msg(96, vec![F::U(remote)]));
        }
        Step::Replies => {
            return c
                .wait("", "", |s| {
                    if over(s) {
                        return Some(false);
                    }
                    s.chans[&local].reqs.is_empty().then_some(true)
                })
                .await
                .unwrap_or(false)
        }
        Step::Yield(n) => c.env.yields(*n).await,
        Step::Message(m) => c.send(m),
        Step::Gate(g) => c.env.gate(g).await,
        Step::OpenGate(g) => c.env.open_gate(g),
        Step::Close => {
            c.lock().chans.get_mut(&local).unwrap().close_sent = true;
            c.send(&msg(97, vec![F::U(remote)]));
            c.board.count("early_closes", 1);
            return false;
        }
        Step::Output(n) => {
            return c
                .wait("", "", |s| {
                    if over(s) {
                        return Some(false);
                    }
                    (s.chans[&local].out.len() >= *n).then_some(true)
                })
                .await
                .unwrap_or(false)
        }
    }
    true
}

/// Run one channel from open to close and judge the result.
pub fn session(c: Conn, plan: Plan) -> impl Future<Output = ()> + Send {
    let local = plan.local;
    c.lock().chans.insert(
        local,
        Chan {
            local,
            remote: None,
            open_failed: None,
            credit: plan.window as u64,
            maxpkt: plan.maxpkt,
            limited: false,
            out: Vec::new(),
            err: Vec::new(),
            eof: false,
            status: Vec::new(),
            server_closed: false,
            eof_sent: false,
            close_sent: false,
            swin: 0,
            smax: 0,
            reqs: VecDeque::new(),
            replies: 0,
            started: None,
            commands: Vec::new(),
            sent: Vec::new(),
            ext_sent: 0,
            granted: 0,
            order: Vec::new(),
        },
    );
    c.send(&msg(
        90,
        vec![F::S(plan.open_ty.clone()), F::U(local), F::U(plan.window), F::U(plan.maxpkt)],
    ));
    opened_session(c, plan)
}

async fn opened_session(c: Conn, plan: Plan) {
    let local = plan.local;
    let e = c.board.expect("C18,C20,C14", format!("{}: waits for the answer to opening channel {}", c.name, local));
    let ok = c
        .wait("", "", |s| {
            let ch = &s.chans[&local];
            if ch.open_failed.is_some() {
                Some(false)
            } else {
                ch.remote.map(|_| true)
            }
        })
        .await;
    drop(e);
    let supported = plan.open_ty == b"session";
    match ok {
        None => return,
        Some(ok) if ok != supported => {
            c.fail("C18", format!("opening a channel of type {:?}: {}", String::from_utf8_lossy(&plan.open_ty), ok));
            if !ok {
                c.lock().chans.remove(&local);
                return;
            }
        }
        Some(false) => {
            c.board.count("opens_refused", 1);
            c.lock().chans.remove(&local);
            return;
        }
        Some(true) => {}
    }

    // Grants window while the channel lives.
    let granter = async {
        if plan.never {
            return futures::future::pending::<()>().await;
        }
        let open = |s: &CS| s.chans.get(&local).map_or(false, |ch| !ch.close_sent && !ch.server_closed);
        if plan.excess && open(&c.lock()) {
            // More than the window can count.
            let (n, remote) = {
                let mut s = c.lock();
                let n = u32::MAX - *s.r.pick(&[0, 0, 1, 100]);
                let ch = s.chans.get_mut(&local).unwrap();
                if !ch.close_sent {
                    ch.credit += n as u64;
                }
                (n, ch.remote.unwrap())
            };
            c.board.count("excessive_grants", 1);
            c.send(&msg(93, vec![F::U(remote), F::U(n)]));
        }
        loop {
            let r = c
                .wait("", "", |s| {
                    let ch = s.chans.get(&local)?;
                    if ch.server_closed || ch.close_sent {
                        return Some(false);
                    }
                    (ch.credit <= plan.below).then_some(true)
                })
                .await;
            if r != Some(true) {
                return futures::future::pending().await;
            }
            c.env.yields(plan.lazy).await;
            let mut s = c.lock();
            let n = s.r.range(plan.grant.0, plan.grant.1);
            let Some(ch) = s.chans.get_mut(&local) else { continue };
            if ch.server_closed || ch.close_sent {
                continue;
            }
            let n = (n as u64).min((u32::MAX as u64).saturating_sub(ch.credit));
            ch.credit += n;
            ch.limited = true;
            let remote = ch.remote.unwrap();
            drop(s);
            c.board.count("window_grants", 1);
            c.send(&msg(93, vec![F::U(remote), F::U(n as u32)]));
        }
    };
    let main = async {
        for st in &plan.steps {
            if !step(&c, local, st, &plan, false).await {
                break;
            }
        }
        c.wait("", "", |s| s.chans[&local].server_closed.then_some(())).await;
    };
    futures::pin_mut!(main, granter);
    futures::future::select(main, granter).await;
    if c.lock().ended.is_some() {
        return;
    }
    // Answer the server's close.
    if !c.lock().chans[&local].close_sent {
        c.env.yields(plan.late_yield).await;
        for st in &plan.late {
            if matches!(st, Step::Data(_) | Step::Eof) && c.lock().chans[&local].eof_sent {
                continue;
            }
            step(&c, local, st, &plan, true).await;
        }
        let remote = c.lock().chans[&local].remote.unwrap();
        c.send(&msg(97, vec![F::U(remote)]));
        let mut s = c.lock();
        let mut ch = s.chans.remove(&local).unwrap();
        ch.server_closed = true;
        s.done.push(ch);
        let i = s.done.len() - 1;
        drop(s);
        judge(&c, i, true);
    } else {
        let mut s = c.lock();
        let ch = s.chans.remove(&local).unwrap();
        s.done.push(ch);
        let i = s.done.len() - 1;
        drop(s);
        judge(&c, i, false);
    }
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} bytes instead of {}, first difference at {}", a.len(), b.len(), i)
}

/// Compare a finished channel with what its process did.
fn judge(c: &Conn, i: usize, complete: bool) {
    let s = c.lock();
    let ch = &s.done[i];
    let procs: Vec<(&Vec<u8>, ProcInfo)> =
        ch.commands.iter().filter_map(|x| process(&c.world, x).map(|p| (x, p))).collect();
    let fail = |tags: &str, t: String| {
        c.fail(tags, format!("channel {} ({:?}): {}", ch.local, ch.commands.iter().map(|c| String::from_utf8_lossy(c)).collect::<Vec<_>>(), t));
    };
    if procs.len() > 1 {
        fail("C18", format!("{} processes were started", procs.len()));
    }
    {
        let mut h = ch.order.clone();
        h.extend_from_slice(&(ch.out.len() as u32).to_be_bytes());
        h.extend_from_slice(&(ch.sent.len() as u32).to_be_bytes());
        c.board.0.lock().unwrap().sigs.push(h);
    }
    let Some((_, p)) = procs.first() else {
        c.board.count("channels_without_process", 1);
        return;
    };
    if complete && !ch.reqs.is_empty() {
        // Requests that crossed the close get no answer.
        c.board.count("requests_crossing_close", ch.reqs.len() as u64);
    }
    let want = if p.echoed { p.stdin.clone() } else { content(p.id, 1, p.out as usize) };
    let want_err = content(p.id, 0, p.err as usize);
    if complete {
        if ch.out != want {
            fail("C16,C18", format!("standard output: {}", diff(&ch.out, &want)));
        }
        if ch.err != want_err {
            fail("C16,C18", format!("standard error: {}", diff(&ch.err, &want_err)));
        }
        if p.out_broken {
            fail("C16", "the process could not write all its output".into());
        }
        c.board.count("channels_complete", 1);
    } else {
        if !want.starts_with(&ch.out) {
            fail("C16,C18", format!("standard output: {}", diff(&ch.out, &want)));
        }
        if !want_err.starts_with(&ch.err) {
            fail("C16,C18", format!("standard error: {}", diff(&ch.err, &want_err)));
        }
        c.board.count("channels_closed_early", 1);
    }
    if !ch.sent.starts_with(&p.stdin) {
        fail("C15,C18,C14", format!("standard input: {}", diff(&p.stdin, &ch.sent)));
    }
    if p.stdin_eof && complete {
        if !ch.eof_sent {
            fail("C15", "the process saw an end of input the client did not send".into());
        } else if p.stdin.len() != ch.sent.len() {
            fail("C15,C14", format!("standard input ends early: {}", diff(&p.stdin, &ch.sent)));
        }
        c.board.count("inputs_complete", 1);
    }
    c.board.count("stdin_delivered", p.stdin.len() as u64);
}

/// Why a channel is not finished although nothing can happen anymore.
pub fn diagnose(c: &Conn) {
    let s = c.lock();
    if s.ended.is_some() {
        return;
    }
    for ch in s.chans.values() {
        let fail = |tags: &str, t: String| {
            c.fail(&format!("C20,C14,{}", tags), format!("stuck: channel {}: {}", ch.local, t));
        };
        if ch.remote.is_none() {
            if ch.open_failed.is_none() {
                fail("C18", "open was not answered".into());
            }
            continue;
        }
        if ch.server_closed {
            continue;
        }
        if ch.close_sent {
            fail("C17", "close was not answered".into());
            continue;
        }
        if !ch.reqs.is_empty() {
            fail("C18", format!("no reply to request {:?}", ch.reqs[0].what));
        }
        match ch.commands.iter().find_map(|x| process(&c.world, x)) {
            None => {
                if !ch.commands.is_empty() && ch.reqs.is_empty() {
                    fail("C18", "a request was not carried out".into());
                }
            }
            Some(p) => {
                let owed = p.out > ch.out.len() as u64 || p.err > ch.err.len() as u64;
                if owed && ch.credit > 0 {
                    fail(
                        "C16,C21,C17",
                        format!(
                            "output not delivered: {}+{} of {}+{} bytes with {} bytes of window",
                            ch.out.len(),
                            ch.err.len(),
                            p.out,
                            p.err,
                            ch.credit
                        ),
                    );
                }
                if p.stdin.len() < ch.sent.len() && !p.ended {
                    fail(
                        "C15,C21",
                        format!("input not delivered: {} of {} bytes, window {}", p.stdin.len(), ch.sent.len(), ch.swin),
                    );
                } else if ch.eof_sent && !p.stdin_eof && !p.ended {
                    fail("C15", "end of input not delivered".into());
                } else if ch.swin == 0 {
                    fail("C21,C15", "the window is not replenished".into());
                }
                if p.ended && !owed {
                    fail("C17", format!("process ended but the channel is not closed (eof {}, status {:?})", ch.eof, ch.status));
                }
            }
        }
    }
}

/// Every command must have been started for the user of the connection that asked for it.
pub fn check_spawns(w: &World, board: &Board, hostile: bool, owner: &dyn Fn(&[u8]) -> Option<Vec<u8>>) {
    let s = w.s.lock().unwrap();
    let mut seen: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for e in &s.events {
        if let Ev::Spawn { token, command, proc_, .. } = e {
            match (s.tokens.get(token), owner(command)) {
                (Some(u), Some(o)) if *u == o => {}
                (Some(_), None) if hostile => continue,
                (u, o) => board.fail(
                    "C12,C18",
                    format!(
                        "command {:?} of {:?} was started as {:?}",
                        String::from_utf8_lossy(command),
                        o.map(|x| String::from_utf8_lossy(&x).into_owned()),
                        u.map(|x| String::from_utf8_lossy(x).into_owned())
                    ),
                ),
            }
            if proc_.is_some() {
                let n = seen.entry(command.clone()).or_insert(0);
                *n += 1;
                if *n > 1 {
                    board.fail("C18,C14", format!("command {:?} was started twice", String::from_utf8_lossy(command)));
                }
            }
        }
    }
}
