SEEDS = []
def seed(**k): SEEDS.append(k)
DATA = "nora_ssh_core/src/data.rs"
seed(id="mpint-zeroes", property="C01",
     edits=[(DATA, "while s.get(0) == Some(&0) {", "if s.get(0) == Some(&0) {")],
     needs="an integer with at least two leading zero bytes (one in 65536 signatures)",
     breaks="the mpint keeps a redundant zero, so it is not the canonical encoding",
     main=r'''
use nora_ssh_core::message::{key_exchange::ecdh::*, KeyExchangeEcdhReply, Message};
fn main() {
    let mut r = [0x11; 32];
    r[..2].fill(0);
    let m = Message::KeyExchangeEcdhReply(KeyExchangeEcdhReply {
        server_public_key: Key { name: b"k", blob: KeyBlob { identifier: b"i", q: b"q" } },
        server_ephermal_public_key: b"e",
        exchange_hash_signature: Signature { name: b"s", blob: SignatureBlob { r: &r, s: &[0x22; 32] } },
    });
    let mut buf = [0; 512];
    let b = m.serialize(&mut buf).unwrap().0;
    let want = [&30u32.to_be_bytes()[..], &[0x11; 30]].concat();
    assert!(b.windows(want.len()).any(|w| w == want), "not canonical");
}
''')
seed(id="bool-two", property="C02",
     edits=[(DATA, "(buf[0] != 0, &buf[1..])", "(buf[0] == 1, &buf[1..])")],
     needs="a peer that encodes true as a byte other than 1, in a debug message or session request",
     breaks="RFC 4251: all non-zero values are true",
     main=r'''
use nora_ssh_core::message::Message;
fn main() {
    let m = [&[4u8, 2][..], &[0, 0, 0, 1, b'x'], &[0; 4]].concat();
    match Message::parse(&m) {
        Ok(Message::Debug(d)) => assert!(d.always_display),
        _ => panic!("not parsed"),
    }
}
''')
seed(id="raw-exact-fit", property="C03",
     edits=[(DATA, "(data.len() <= buf.len()).then(|| {\n\t\tlet (cpy", "(data.len() < buf.len()).then(|| {\n\t\tlet (cpy")],
     needs="a buffer that fits a message ending in raw data exactly",
     breaks="serialisation fails although the message fits",
     main=r'''
use nora_ssh_core::message::{channel::{Channel, Request}, Message};
fn main() {
    let m = Message::Channel(Channel::Request(Request { recipient_channel: 1, ty: b"ab", want_reply: true, data: b"xyz" }));
    let mut big = [0; 100];
    let n = m.serialize(&mut big).unwrap().0.len();
    let mut exact = vec![0; n];
    assert!(m.serialize(&mut exact).is_some());
}
''')
seed(id="padding-minimum", property="C04",
     edits=[("nora_ssh_core/src/packet.rs", "if padding_len < 4 {", "if padding_len < 3 {")],
     needs="a payload length that leaves exactly three bytes of padding",
     breaks="RFC 4253 requires at least four bytes of padding",
     main=r'''
use nora_ssh_core::packet::*;
fn main() {
    for n in 0..64usize {
        let mut buf = [0; 256];
        let p = Packet::wrap(&mut buf, BlockSize::B8, true, |_| n, rand::rngs::OsRng);
        assert!(p.padding_len() >= 4, "{} bytes of padding for {}", p.padding_len(), n);
    }
}
''')
CIPH = "nora_ssh_core/src/cipher/chacha20poly1305.rs"
seed(id="nonce-truncated", property="C05",
     edits=[(CIPH, "LegacyNonce::from_slice(&self.counter.to_be_bytes())", "LegacyNonce::from_slice(&u64::from(self.counter as u32).to_be_bytes())")],
     needs="more than 2^32 packets on a connection",
     breaks="nonces repeat after 2^32 packets",
     main=r'''
use nora_ssh_core::{cipher::*, key_exchange::*};
fn main() {
    let m = KeyMaterial::<sha2::Sha256>::new([7; 32], [9; 32]);
    let enc = |n| {
        let mut p = [0; 40];
        ChaCha20Poly1305::from_key_material(&m, Direction::ClientToServer, n).encrypt(&mut p);
        p
    };
    assert!(enc(5) != enc(5 + (1 << 32)), "nonce reused");
}
''')
seed(id="tag-prefix", property="C06",
     edits=[(CIPH, "self.compute_tag(data) == Tag::new(<[u8; TAG_SIZE]>::try_from(tag).unwrap().into())", "let (a, b) = (self.compute_tag(data).into_bytes(), tag);\n\t\ta.iter().zip(b).take(12).all(|(a, b)| a == b)")],
     needs="a forgery that differs only in the last four bytes of the tag",
     breaks="96 bits of the tag are compared instead of 128",
     main=r'''
use nora_ssh_core::{cipher::*, key_exchange::*};
fn main() {
    let m = KeyMaterial::<sha2::Sha256>::new([7; 32], [9; 32]);
    let new = || ChaCha20Poly1305::from_key_material(&m, Direction::ClientToServer, 3);
    for bit in 0..128 {
        let mut p = [0; 40];
        new().encrypt(&mut p);
        p[24 + bit / 8] ^= 1 << (bit % 8);
        assert!(new().decrypt_data(&mut p).is_err(), "bit {}", bit);
    }
}
''')
seed(id="reject-advances", property="C06",
     edits=[(CIPH, "\t\t\tself.apply_data(&mut data[4..l]);\n\t\t\t// 2^70 is 1 ZiB worth of data, which a single session will *never* reach in practice\n\t\t\tself.counter += 1;\n\t\t\tOk(())\n\t\t} else {\n\t\t\tErr(Error)",
                    "\t\t\tself.apply_data(&mut data[4..l]);\n\t\t\t// 2^70 is 1 ZiB worth of data, which a single session will *never* reach in practice\n\t\t\tself.counter += 1;\n\t\t\tOk(())\n\t\t} else {\n\t\t\tself.counter += 1;\n\t\t\tErr(Error)")],
     needs="a forged packet rejected before the genuine one arrives",
     breaks="rejecting a packet advances the sequence number",
     main=r'''
use nora_ssh_core::{cipher::*, key_exchange::*};
fn main() {
    let m = KeyMaterial::<sha2::Sha256>::new([7; 32], [9; 32]);
    let new = || ChaCha20Poly1305::from_key_material(&m, Direction::ClientToServer, 3);
    let mut p = [0; 40];
    new().encrypt(&mut p);
    let mut c = new();
    let mut f = p;
    f[10] ^= 1;
    assert!(c.decrypt_data(&mut f).is_err());
    assert!(c.decrypt_data(&mut p).is_ok(), "genuine packet rejected");
}
''')
seed(id="key-chain", property="C07",
     edits=[("nora_ssh_core/src/key_exchange.rs", "for k in keys {", "for k in keys.iter().skip(keys.len().saturating_sub(1)) {")],
     needs="a cipher that needs more than two blocks of key material",
     breaks="K3 = HASH(K || H || K2) instead of HASH(K || H || K1 || K2)",
     main=r'''
use nora_ssh_core::key_exchange::*;
use sha2::{Digest, Sha256};
fn main() {
    let (k, h) = ([7u8; 32], [9u8; 32]);
    let mut out = [[0; 32]; 3];
    KeyMaterial::<Sha256>::new(k, h).encryption_key(Direction::ClientToServer, &mut out);
    let mut d = Sha256::new();
    d.update(32u32.to_be_bytes());
    for p in [&k, &h, &out[0], &out[1]] {
        d.update(p);
    }
    assert_eq!(out[2][..], d.finalize()[..]);
}
''')
seed(id="key-slice-length", property="C27",
     edits=[("nora_ssh_core/src/key_exchange.rs", "unsafe { out.align_to().1 }", "unsafe { core::slice::from_raw_parts(out.as_ptr().cast(), (out.len() * OUTPUT_SIZE).next_power_of_two()) }")],
     needs="key material whose number of blocks is not a power of two",
     breaks="the returned slice extends beyond the caller's buffer",
     main=r'''
use nora_ssh_core::key_exchange::*;
fn main() {
    for n in 1..9 {
        let mut out = vec![[0; 32]; n];
        let l = KeyMaterial::<sha2::Sha256>::new([1; 32], [2; 32]).initial_iv(Direction::ClientToServer, &mut out).len();
        assert_eq!(l, 32 * n, "slice beyond the buffer");
    }
}
''')
