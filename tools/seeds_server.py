SEEDS = []
def seed(**k): SEEDS.append(k)
HOST = "nora_ssh/src/host.rs"
SRV = "nora_ssh/src/server.rs"
ID = "nora_ssh/src/identifier.rs"
SCP = "nora_scp/src/main.rs"
SSHD = "nora_sshd/src/main.rs"

seed(id="secret-as-string", property="C08",
     edits=[("nora_ssh_core/src/message/key_exchange/ecdh.rs", "\t\tlet mut buf = [0; 128];\n\t\tlet l = make_pos_mpint(&mut buf, s).unwrap();\n",
             "\t\t// Without a sign byte it is a plain string.\n\t\tif s.first().map_or(false, |b| b & 0x80 == 0) {\n\t\t\treturn f(hash, s);\n\t\t}\n\t\tlet mut buf = [0; 128];\n\t\tlet l = make_pos_mpint(&mut buf, s).unwrap();\n")],
     needs="a shared secret whose first byte is zero (one handshake in 256)",
     breaks="the exchange hash covers a non-canonical integer, so the signature does not verify for other implementations",
     main=r'''
use nora_ssh::Identifier;
use nora_ssh_core::message::key_exchange::ecdh::{Key, KeyBlob, KeyExchangeDigest};
use sha2::Digest;
fn s(h: &mut sha2::Sha256, b: &[u8]) {
    h.update((b.len() as u32).to_be_bytes());
    h.update(b);
}
fn main() {
    for zeros in 0..4 {
        let mut secret = [0x33; 32];
        secret[..zeros].fill(0);
        let mut buf = [0; 256];
        let got = KeyExchangeDigest::<sha2::Sha256>::default()
            .update(&Identifier::new(b"SSH-2.0-a").unwrap())
            .update(&Identifier::new(b"SSH-2.0-b").unwrap())
            .update(b"ci")
            .update(b"si")
            .update(&mut buf, &Key { name: b"n", blob: KeyBlob { identifier: b"i", q: b"q" } })
            .update(b"ce")
            .update(b"se")
            .update(&secret);
        let mut h = sha2::Sha256::new();
        for b in [&b"SSH-2.0-a"[..], b"SSH-2.0-b", b"ci", b"si", b"\0\0\0\x01n\0\0\0\x01i\0\0\0\x01q", b"ce", b"se"] {
            s(&mut h, b);
        }
        s(&mut h, &secret[zeros..]);
        assert_eq!(got, h.finalize(), "{} leading zeros", zeros);
    }
}
''')

seed(id="cipher-one-way", property="C09",
     edits=[(HOST, "\t\t\t|| !msg\n\t\t\t\t.encryption_algorithms_server_to_client\n", "\t\t\t|| !msg\n\t\t\t\t.encryption_algorithms_client_to_server\n")],
     needs="a client that offers the cipher in one direction only",
     breaks="the handshake completes although no cipher was agreed for server to client",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    Client::new(&mut w).kex(&mut w).expect("normal handshake");
    let mut l = LISTS;
    l[3] = "aes128-ctr";
    let r = Client::new(&mut w).kex_with(&mut w, "SSH-2.0-c", &kexinit(&l));
    assert!(r.is_err(), "handshake without an agreed cipher");
}
''')

seed(id="ident-inner-cr", property="C10",
     edits=[(ID, "\t\t\t(true, c) => {\n\t\t\t\tpush(b'\\r')?;\n", "\t\t\t(true, c) => {\n")],
     needs="a client identification with a carriage return inside its comment",
     breaks="the exchange hash covers another identification than the client sent",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    Client::new(&mut w).kex_with(&mut w, "SSH-2.0-c comment", &kexinit(&LISTS)).expect("plain");
    Client::new(&mut w).kex_with(&mut w, "SSH-2.0-c com\rment", &kexinit(&LISTS)).expect("inner CR");
}
''')

seed(id="banner-almost-ssh", property="C10",
     edits=[(ID, "(State::SS, b'H') => State::SSH,", "(State::SS, b'H') => State::SSH,\n\t\t\t(State::SS, b'S') => State::SS,")],
     needs="a line before the identification that starts with SSSH-",
     breaks="a line which does not start with SSH- is taken for the identification",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    let mut c = Client::new(&mut w);
    c.c2s.put(b"SSSH-1.0-not it\r\n");
    c.kex(&mut w).expect("handshake after another line");
}
''')

seed(id="padding-first-block", property="C11",
     edits=[("nora_ssh_core/src/packet.rs", "rng.fill_bytes(&mut buf[4 + 1 + payload_len..][..padding_len]);", "rng.fill_bytes(&mut buf[4 + 1 + payload_len..][..padding_len.min(block_size)]);")],
     needs="a packet with more padding than a block, in a buffer used before",
     breaks="up to three bytes of padding are leftovers of earlier packets (decrypted client data, for example)",
     main=r'''
use nora_ssh_core::packet::*;
use rand::{CryptoRng, Error, RngCore};
struct Ones;
impl CryptoRng for Ones {}
impl RngCore for Ones {
    fn next_u32(&mut self) -> u32 { u32::MAX }
    fn next_u64(&mut self) -> u64 { u64::MAX }
    fn fill_bytes(&mut self, b: &mut [u8]) { b.fill(0xff) }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { b.fill(0xff); Ok(()) }
}
fn main() {
    for n in 0..40usize {
        let mut buf = *b"a secret left behind by an earlier use of this very buffer, which must not be sent out again ......";
        let p = Packet::wrap(&mut buf, BlockSize::B8, false, |b| { b[..n].fill(1); n }, Ones);
        let raw = p.as_raw();
        assert!(raw[5 + n..].iter().all(|b| *b == 0xff), "leftovers in the padding of {} bytes: {:?}", n, &raw[5 + n..]);
    }
}
''')

seed(id="fixed-service", property="C13",
     edits=[(SRV, "\t\t\t\t\t\tua.user,\n\t\t\t\t\t\tua.service,\n\t\t\t\t\t\talgorithm,\n\t\t\t\t\t\tkey_blob,\n", "\t\t\t\t\t\tua.user,\n\t\t\t\t\t\tb\"ssh-connection\",\n\t\t\t\t\t\talgorithm,\n\t\t\t\t\t\tkey_blob,\n")],
     needs="a signed request for another service than ssh-connection",
     breaks="a signature made for one service is taken for another, and one for the requested service is refused",
     main=r'''
mod kit;
use kit::*;
fn main() {
    for service in ["ssh-connection", "ssh-other"] {
        let mut w = World::new();
        let mut c = Client::new(&mut w);
        c.kex(&mut w).unwrap();
        c.userauth(&mut w);
        let alg = b"ssh-ed25519";
        let blob = cat(&[&s(alg), &s(&[7; 32])]);
        let sig = cat(&[&s(alg), &s(&[8; 64])]);
        let head = cat(&[&[50], &s(b"u"), &s(service.as_bytes()), &s(b"publickey"), &[1], &s(alg), &s(&blob)]);
        c.send(&cat(&[&head, &s(&sig)]));
        c.recv(&mut w);
        let want = cat(&[&s(&c.session), &head]);
        let got = w.app.lock().unwrap().messages.clone();
        assert!(got.iter().all(|m| *m == want), "other data is verified than the request for {:?} covers", service);
    }
}
''')

seed(id="single-write", property="C14",
     edits=[(HOST, "io.write_all(pkt).await.map_err(OutError::Write)", "io.write(pkt).await.map(|_| ()).map_err(OutError::Write)")],
     needs="a transport that accepts only a part of a packet at once",
     breaks="the rest of the packet is never sent; the stream is corrupt from there on",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    let mut c = Client::login(&mut w, "u");
    c.s2c.set_chunk(11);
    let ch = c.open(&mut w, 5, 100000, 30000);
    c.exec(ch, "x", true);
    assert_eq!(c.recv(&mut w).expect("reply")[0], 99);
}
''')

seed(id="arena-truncate", property="C18",
     edits=[("nora_ssh/src/arena.rs", "\tpub fn remove(&mut self, i: u32) -> Option<T> {\n\t\tself.0\n\t\t\t.get_mut(usize::try_from(i).unwrap())\n\t\t\t.map(Option::take)\n\t\t\t.flatten()\n",
             "\tpub fn remove(&mut self, i: u32) -> Option<T> {\n\t\tlet i = usize::try_from(i).unwrap();\n\t\tlet v = self.0.get_mut(i).map(Option::take).flatten();\n\t\t// Give memory back once the upper half is unused.\n\t\tif i < self.0.len() / 2 && self.0.iter().skip(i + 2).all(Option::is_none) {\n\t\t\tself.0.truncate(i + 1);\n\t\t}\n\t\tv\n")],
     needs="a channel that is closed while only the next one remains open and there had been more",
     breaks="the remaining channel is forgotten: its requests go unanswered and its identifier is given to another one",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    let mut c = Client::login(&mut w, "u");
    let ch: Vec<u32> = (0..4).map(|i| c.open(&mut w, 10 + i, 100000, 30000)).collect();
    for i in [3, 2, 0] {
        c.close(ch[i]);
        assert_eq!(c.recv(&mut w).expect("close")[0], 97);
    }
    c.exec(ch[1], "x", true);
    let m = c.recv(&mut w).expect("reply on the remaining channel");
    assert_eq!((m[0], get_u32(&m[1..])), (99, 11));
}
''')

seed(id="length-bound", property="C19",
     edits=[(HOST, "\t\tlet data = data\n\t\t\t.get_mut(..len + self.0.tag_size())\n\t\t\t.ok_or(InError::BufferTooSmall(len))?;\n",
             "\t\tif len > data.len() {\n\t\t\treturn Err(InError::BufferTooSmall(len));\n\t\t}\n\t\tlet data = &mut data[..len + self.0.tag_size()];\n")],
     needs="an announced packet length within 16 bytes of the receive buffer",
     breaks="the server panics, for all clients",
     main=r'''
mod kit;
use kit::*;
use nora_ssh_core::cipher::Cipher;
fn main() {
    let mut w = World::new();
    for len in (34900..35100u32).step_by(4) {
        let mut c = Client::new(&mut w);
        c.kex(&mut w).unwrap();
        let mut v = u(len);
        v.extend([0; 16]);
        c.encrypt(&mut v);
        c.c2s.put(&v[..4]);
        w.run();
        c.c2s.close();
        w.run();
    }
    Client::login(&mut w, "u");
}
trait Enc {
    fn encrypt(&mut self, v: &mut [u8]);
}
impl Enc for Client {
    fn encrypt(&mut self, v: &mut [u8]) {
        self.out.as_mut().unwrap().encrypt(v)
    }
}
''')

seed(id="waker-replaced", property="C20",
     edits=[("nora_ssh/src/sync.rs", "waker: &Waker) {\n\t\tlet mut q = self.queue.take();\n", "waker: &Waker) {\n\t\tlet mut q = Vec::<(u64, Waker)>::with_capacity(1);\n")],
     needs="at least two channels waiting to send while the transport is stalled",
     breaks="only the last one is woken; the output of the others is stuck until something else happens",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    let mut c = Client::login(&mut w, "u");
    let n = 4;
    for i in 0..n {
        let ch = c.open(&mut w, i, 100000, 30000);
        c.exec(ch, "x", true);
        assert_eq!(c.recv(&mut w).expect("reply")[0], 99);
    }
    c.s2c.set_cap(0);
    for i in 0..n as usize {
        w.proc_(i).stdout.put(b"output");
        w.run();
    }
    c.s2c.set_cap(1 << 30);
    let m = c.recv_all(&mut w);
    for i in 0..n {
        assert!(m.iter().any(|m| m[0] == 94 && get_u32(&m[1..]) == i), "output of channel {} is stuck", i);
    }
}
''')

seed(id="receive-buffer", property="C21",
     edits=[(SRV, "\t\tlet mut buf = Vec::new();\n\t\tbuf.resize(35000, 0);\n", "\t\tlet mut buf = Vec::new();\n\t\tbuf.resize(32768, 0);\n")],
     needs="a client that sends a data packet of the largest size the server promised to accept",
     breaks="the server promises a packet size that it cannot receive and ends the connection",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    let mut c = Client::login(&mut w, "u");
    c.send(&cat(&[&[90], &s(b"session"), &u(1), &u(1000), &u(1000)]));
    let m = c.recv(&mut w).expect("confirmation");
    let (ch, window, max) = (get_u32(&m[5..]), get_u32(&m[9..]), get_u32(&m[13..]));
    c.exec(ch, "x", true);
    assert_eq!(c.recv(&mut w).expect("reply")[0], 99);
    let n = max.min(window) as usize;
    c.data(ch, &vec![b'x'; n]);
    w.run();
    let got = w.proc_(0).stdin.take().len();
    assert_eq!(got, n, "data of the promised size is not received");
}
''')

seed(id="arena-grows", property="C29",
     edits=[("nora_ssh/src/arena.rs", "\t\tif let Some((i, v)) = self.0.iter_mut().enumerate().find(|v| v.1.is_none()) {\n\t\t\t*v = Some(value);\n\t\t\ti\n\t\t} else {\n\t\t\tself.0.push(Some(value));\n\t\t\tself.0.len() - 1\n\t\t}\n\t\t.try_into()\n\t\t.unwrap()\n",
             "\t\t// Identifiers are not reused, so that late messages cannot reach a new channel.\n\t\tself.0.push(Some(value));\n\t\t(self.0.len() - 1).try_into().unwrap()\n")],
     needs="a connection with a long history of channels",
     breaks="the table of channels grows with the number of channels there ever were",
     main=r'''
mod kit;
use kit::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut w = World::new();
    let mut c = Client::login(&mut w, "u");
    let mut cycle = |n| {
        for _ in 0..n {
            let ch = c.open(&mut w, 7, 1000, 1000);
            c.close(ch);
            assert_eq!(c.recv(&mut w).expect("close")[0], 97);
        }
    };
    cycle(200);
    let before = LIVE.load(Relaxed);
    cycle(6000);
    let after = LIVE.load(Relaxed);
    assert!(after < before + 16_000, "{} bytes before, {} after", before, after);
}
''')

SCP_HEAD = r'''
#!/bin/bash
set -eu
SCP="$(pwd)/target/debug/nora_scp"
W="$(mktemp -d)"
trap 'rm -rf -- "$W"' EXIT
cd "$W"
'''
seed(id="backslash-names", property="C22",
     edits=[(SCP, "let f = File::create(file)?;", "// Windows senders use backslashes.\n\t\t\t\t\tlet f = File::create(file.replace('\\\\', \"/\"))?;")],
     needs="a sender that announces a name with backslashes",
     breaks="a name such as ..\\x is written outside of the target directory",
     sh=SCP_HEAD + r'''
mkdir outer
printf 'C0644 3 ..\\evil\nabc\0' | "$SCP" -t -d outer/target >/dev/null 2>&1 || true
[ ! -e outer/evil ]
''')
seed(id="ack-before-create", property="C23",
     edits=[(SCP, "let f = File::create(path)?;\n\t\t\t\t\tping_ready()?;", "ping_ready()?;\n\t\t\t\t\tlet f = File::create(path)?;")],
     needs="a target path that cannot be created",
     breaks="the header is acknowledged although the file was not created",
     sh=SCP_HEAD + r'''
mkdir dir
N="$(printf 'C0644 3 x\nabc\0' | "$SCP" -t dir 2>/dev/null | wc -c || true)"
[ "$N" = 1 ]
''')
seed(id="size-sign", property="C23",
     edits=[(SCP, "let size = size.parse::<usize>()?;", "let size = size.trim_start_matches('0').parse::<usize>().unwrap_or(0);")],
     needs="a header whose size is not a number",
     breaks="the malformed header is acknowledged, as an empty file",
     sh=SCP_HEAD + r'''
printf 'C0644 x12 f\n\0' | "$SCP" -t f >out 2>/dev/null && exit 1
[ "$(wc -c <out)" = 1 ]
''')
seed(id="skip-unreadable", property="C24",
     edits=[(SCP, "let mut f = File::open(path)?;", "let mut f = match File::open(path) {\n\t\t\tOk(f) => f,\n\t\t\tErr(e) if from.len() > 1 => {\n\t\t\t\teprintln!(\"{}: {}\", path.display(), e);\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tErr(e) => Err(e)?,\n\t\t};")],
     needs="several files of which one does not exist",
     breaks="the sender exits successfully although a file was not sent",
     sh=SCP_HEAD + r'''
echo a >a
if printf '\0\0\0\0\0\0\0\0' | "$SCP" -f a missing >/dev/null 2>&1; then exit 1; fi
printf '\0\0\0\0\0\0\0\0' | "$SCP" -f a >/dev/null
''')

DAEMON = r'''
mod kit;
use kit::*;
struct Daemon(std::process::Child);
impl Drop for Daemon {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
fn daemon() -> (Daemon, World) {
    let p = format!("{}/target/debug/nora_sshd", std::env::var("REPO").unwrap());
    let n = || std::process::Stdio::null();
    let d = Daemon(std::process::Command::new(p).env("SHELL", "/bin/sh").stdin(n()).stdout(n()).stderr(n()).spawn().unwrap());
    (d, World::daemon(2222))
}
/// Log in with a genuine signature under this algorithm name.
fn login(w: &mut World, alg: &[u8], damage: bool) -> (Client, bool) {
    let mut c = Client::new(w);
    c.kex(w).unwrap();
    c.userauth(w);
    let sk = ed25519_dalek::SecretKey::from_bytes(&[3; 32]).unwrap();
    let pk = ed25519_dalek::PublicKey::from(&sk);
    let blob = cat(&[&s(alg), &s(pk.as_bytes())]);
    let head = cat(&[&[50], &s(b"user"), &s(b"ssh-connection"), &s(b"publickey"), &[1], &s(alg), &s(&blob)]);
    let msg = cat(&[&s(&c.session), &head]);
    let mut sig = ed25519_dalek::ExpandedSecretKey::from(&sk).sign(&msg, &pk).to_bytes();
    if damage {
        sig[40] ^= 4;
    }
    c.send(&cat(&[&head, &s(&cat(&[&s(alg), &s(&sig)]))]));
    let ok = c.recv(w).map_or(false, |m| m == [52]);
    (c, ok)
}
'''
seed(id="algorithm-prefix", property="C25",
     edits=[(SSHD, "if algorithm != b\"ssh-ed25519\" {", "if !algorithm.starts_with(b\"ssh-ed25519\") {")],
     needs="a request naming another algorithm whose name begins alike",
     breaks="requests for certificates and other algorithms are admitted as if they were plain keys",
     main=DAEMON + r'''
fn main() {
    let (_d, mut w) = daemon();
    assert!(login(&mut w, b"ssh-ed25519", false).1, "genuine login");
    assert!(!login(&mut w, b"ssh-ed25519", true).1, "damaged signature");
    assert!(!login(&mut w, b"ssh-ed25519-cert-v01@openssh.com", false).1, "another algorithm is admitted");
}
''')
seed(id="split-on-space", property="C26",
     edits=[(SSHD, ".split(|c| c.is_ascii_whitespace())", ".split(|c| *c == b' ')")],
     needs="a command with a tab or newline between its arguments",
     breaks="the arguments are not separated, another program is looked for",
     main=DAEMON + r'''
fn main() {
    let (_d, mut w) = daemon();
    for cmd in ["printf %s-%s a b", "printf\t%s-%s  a \tb"] {
        let (mut c, ok) = login(&mut w, b"ssh-ed25519", false);
        assert!(ok);
        let ch = c.open(&mut w, 1, 100000, 10000);
        c.exec(ch, cmd, true);
        let mut got = Vec::new();
        for _ in 0..20 {
            for m in c.recv_all(&mut w) {
                if m[0] == 94 {
                    got.extend(get_s(&m[5..]).0);
                }
            }
            if got == b"a-b" {
                break;
            }
        }
        assert_eq!(String::from_utf8_lossy(&got), "a-b", "{:?}", cmd);
    }
}
''')
seed(id="invalid-point", property="C28",
     edits=[(SSHD, "let key = ed25519_dalek::PublicKey::from_bytes(key.try_into().map_err(|_| ())?)\n\t\t\t\t\t.map_err(|_| ())?;", "let key: &[u8; 32] = key.try_into().map_err(|_| ())?;\n\t\t\t\tlet key = ed25519_dalek::PublicKey::from_bytes(key).expect(\"32 bytes\");")],
     needs="an offered key of the right length that is not a point of the curve",
     breaks="one request takes the daemon down",
     main=DAEMON + r'''
fn main() {
    let (_d, mut w) = daemon();
    for i in 0..8 {
        let mut c = Client::new(&mut w);
        c.kex(&mut w).unwrap();
        c.userauth(&mut w);
        let alg = b"ssh-ed25519";
        let blob = cat(&[&s(alg), &s(&[i; 32])]);
        c.send(&cat(&[&[50], &s(b"u"), &s(b"ssh-connection"), &s(b"publickey"), &[1], &s(alg), &s(&blob), &s(&cat(&[&s(alg), &s(&[8; 64])]))]));
        c.recv(&mut w);
    }
    assert!(login(&mut w, b"ssh-ed25519", false).1, "genuine login afterwards");
}
''')
seed(id="few-attempts", property="C12",
     edits=[(SRV, "\t\tmessage.resize(pkt_buf.len() + 4 + session_identifier.len(), 0);\n\t\tloop {\n", "\t\tmessage.resize(pkt_buf.len() + 4 + session_identifier.len(), 0);\n\t\tfor _ in 0..6 {\n"),
            (SRV, "\t\t\t}\n\t\t}\n\t}\n}\n\n/// Parse a key", "\t\t\t}\n\t\t}\n\t\tErr(())\n\t}\n}\n\n/// Parse a key")],
     needs="six refused requests before the right one",
     breaks="the connection ends although each refused request was to leave it usable",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    w.app.lock().unwrap().refuse.push("nobody".into());
    let mut c = Client::new(&mut w);
    c.kex(&mut w).unwrap();
    c.userauth(&mut w);
    for i in 0..12 {
        c.send(&cat(&[&[50], &s(b"nobody"), &s(b"ssh-connection"), &s(b"none")]));
        assert_eq!(c.recv(&mut w).map(|m| m[0]), Some(51), "answer to refused request {}", i);
    }
    c.send(&cat(&[&[50], &s(b"u"), &s(b"ssh-connection"), &s(b"none")]));
    assert_eq!(c.recv(&mut w).as_deref(), Some(&[52][..]), "login");
}
''')
seed(id="early-data", property="C15",
     edits=[(SRV, "\t\t\t\tMessage::Channel(msg::Channel::Data(d)) => {\n", "\t\t\t\tMessage::Channel(msg::Channel::Data(d))\n\t\t\t\t\tif self.channel(d.recipient_channel)?.spawned.get() =>\n\t\t\t\t{\n"),
            (SRV, "\t\t\t\tMessage::Disconnect(_) => return Ok(Action::Exit),\n", "\t\t\t\tMessage::Channel(msg::Channel::Data(d)) => {\n\t\t\t\t\t// No process to receive it.\n\t\t\t\t\tlet ch = self.channel(d.recipient_channel)?;\n\t\t\t\t\tch.take_receive_window(d.data)?;\n\t\t\t\t\tlet len = d.data.len();\n\t\t\t\t\tself.consume(buf, &ch, len).await?;\n\t\t\t\t}\n\t\t\t\tMessage::Disconnect(_) => return Ok(Action::Exit),\n")],
     needs="data sent before the command on its channel is started",
     breaks="the process never gets it",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    let mut c = Client::login(&mut w, "u");
    let ch = c.open(&mut w, 3, 100000, 10000);
    c.data(ch, b"before ");
    c.exec(ch, "x", true);
    c.data(ch, b"after");
    c.eof(ch);
    c.recv_all(&mut w);
    let p = w.proc_(0);
    assert_eq!(String::from_utf8_lossy(&p.stdin.take()), "before after");
    assert!(p.stdin.closed(), "end of file");
}
''')
seed(id="packet-floor", property="C21",
     edits=[("nora_ssh_core/src/message/channel/mod.rs", "\t\t\tlet max_packet_size = u32::from_be_bytes(data[8..].try_into().unwrap());\n", "\t\t\tlet max_packet_size = u32::from_be_bytes(data[8..].try_into().unwrap()).max(128);\n")],
     needs="a client that accepts less than 128 bytes per message",
     breaks="output is sent in larger messages than the client accepts",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    let mut c = Client::login(&mut w, "u");
    for max in [1000, 50] {
        let ch = c.open(&mut w, max, 100000, max);
        c.exec(ch, "x", true);
        c.recv_all(&mut w);
        let p = w.app.lock().unwrap().procs.last().unwrap().clone();
        p.stdout.put(&[b'o'; 700]);
        p.exit(0);
        let mut n = 0;
        for m in c.recv_all(&mut w) {
            if m[0] == 94 {
                let d = get_s(&m[5..]).0.len();
                assert!(d <= max as usize, "{} bytes to a client that accepts {}", d, max);
                n += d;
            }
        }
        assert_eq!(n, 700);
    }
}
''')
seed(id="status-byte", property="C17",
     edits=[("nora_ssh_core/src/message/channel/session.rs", "make_uint32(buf, *status)?", "make_uint32(buf, *status & 0xff)?")],
     needs="an exit status above 255",
     breaks="another status is reported, success if the low byte is zero",
     main=r'''
mod kit;
use kit::*;
fn main() {
    let mut w = World::new();
    let mut c = Client::login(&mut w, "u");
    for (i, status) in [0, 1, 255, 256, 0xdead_0000].iter().enumerate() {
        let ch = c.open(&mut w, i as u32, 100000, 10000);
        c.exec(ch, "x", false);
        c.recv_all(&mut w);
        w.proc_(i).exit(*status);
        let got: Vec<u32> = c
            .recv_all(&mut w)
            .iter()
            .filter(|m| m[0] == 98 && get_s(&m[5..]).0 == b"exit-status")
            .map(|m| get_u32(&m[m.len() - 4..]))
            .collect();
        assert_eq!(got, [*status]);
    }
}
''')
