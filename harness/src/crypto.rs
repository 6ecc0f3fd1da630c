//! Independent implementations used as oracles: ChaCha20 (original variant with a 64-bit nonce and
//! a 64-bit counter), Poly1305, chacha20-poly1305@openssh.com and the RFC 4253 key derivation.

use sha2::{Digest, Sha256};

fn quarter(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

fn chacha_block(key: &[u8; 32], nonce: u64, counter: u64) -> [u8; 64] {
    let mut st = [0u32; 16];
    for (i, w) in [0x61707865u32, 0x3320646e, 0x79622d32, 0x6b206574].iter().enumerate() {
        st[i] = *w;
    }
    for i in 0..8 {
        st[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    st[12] = counter as u32;
    st[13] = (counter >> 32) as u32;
    // OpenSSH: the nonce is the sequence number as a big endian 64-bit integer.
    let n = nonce.to_be_bytes();
    st[14] = u32::from_le_bytes(n[..4].try_into().unwrap());
    st[15] = u32::from_le_bytes(n[4..].try_into().unwrap());
    let init = st;
    for _ in 0..10 {
        quarter(&mut st, 0, 4, 8, 12);
        quarter(&mut st, 1, 5, 9, 13);
        quarter(&mut st, 2, 6, 10, 14);
        quarter(&mut st, 3, 7, 11, 15);
        quarter(&mut st, 0, 5, 10, 15);
        quarter(&mut st, 1, 6, 11, 12);
        quarter(&mut st, 2, 7, 8, 13);
        quarter(&mut st, 3, 4, 9, 14);
    }
    let mut out = [0; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&st[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}

pub fn chacha_xor(key: &[u8; 32], nonce: u64, mut counter: u64, data: &mut [u8]) {
    for c in data.chunks_mut(64) {
        let ks = chacha_block(key, nonce, counter);
        for (d, k) in c.iter_mut().zip(ks.iter()) {
            *d ^= k;
        }
        counter += 1;
    }
}

/// Poly1305 with 26-bit limbs.
pub fn poly1305(key: &[u8; 32], data: &[u8]) -> [u8; 16] {
    let le = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap()) as u64;
    let r0 = le(&key[0..4]) & 0x3ffffff;
    let r1 = (le(&key[3..7]) >> 2) & 0x3ffff03;
    let r2 = (le(&key[6..10]) >> 4) & 0x3ffc0ff;
    let r3 = (le(&key[9..13]) >> 6) & 0x3f03fff;
    let r4 = (le(&key[12..16]) >> 8) & 0x00fffff;
    let (s1, s2, s3, s4) = (r1 * 5, r2 * 5, r3 * 5, r4 * 5);
    let mut h = [0u64; 5];
    for c in data.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        h[0] += le(&b[0..4]) & 0x3ffffff;
        h[1] += (le(&b[3..7]) >> 2) & 0x3ffffff;
        h[2] += (le(&b[6..10]) >> 4) & 0x3ffffff;
        h[3] += (le(&b[9..13]) >> 6) & 0x3ffffff;
        h[4] += (le(&b[12..16]) >> 8) | ((b[16] as u64) << 24);
        let d0 = h[0] * r0 + h[1] * s4 + h[2] * s3 + h[3] * s2 + h[4] * s1;
        let d1 = h[0] * r1 + h[1] * r0 + h[2] * s4 + h[3] * s3 + h[4] * s2;
        let d2 = h[0] * r2 + h[1] * r1 + h[2] * r0 + h[3] * s4 + h[4] * s3;
        let d3 = h[0] * r3 + h[1] * r2 + h[2] * r1 + h[3] * r0 + h[4] * s4;
        let d4 = h[0] * r4 + h[1] * r3 + h[2] * r2 + h[3] * r1 + h[4] * r0;
        let mut c = d0 >> 26;
        h[0] = d0 & 0x3ffffff;
        let d1 = d1 + c;
        c = d1 >> 26;
        h[1] = d1 & 0x3ffffff;
        let d2 = d2 + c;
        c = d2 >> 26;
        h[2] = d2 & 0x3ffffff;
        let d3 = d3 + c;
        c = d3 >> 26;
        h[3] = d3 & 0x3ffffff;
        let d4 = d4 + c;
        c = d4 >> 26;
        h[4] = d4 & 0x3ffffff;
        h[0] += c * 5;
        c = h[0] >> 26;
        h[0] &= 0x3ffffff;
        h[1] += c;
    }
    // Full carry
    let mut c = h[1] >> 26;
    h[1] &= 0x3ffffff;
    for i in 2..5 {
        h[i] += c;
        c = h[i] >> 26;
        h[i] &= 0x3ffffff;
    }
    h[0] += c * 5;
    c = h[0] >> 26;
    h[0] &= 0x3ffffff;
    h[1] += c;
    // h - p
    let mut g = [0u64; 5];
    let mut c = 5;
    for i in 0..5 {
        g[i] = h[i] + c;
        c = g[i] >> 26;
        g[i] &= 0x3ffffff;
    }
    if c != 0 {
        h = g;
    }
    let lo = h[0] as u128
        | (h[1] as u128) << 26
        | (h[2] as u128) << 52
        | (h[3] as u128) << 78
        | (h[4] as u128) << 104;
    let s = u128::from_le_bytes(key[16..].try_into().unwrap());
    lo.wrapping_add(s).to_le_bytes()
}

/// 64 bytes of key: K_2 (payload) followed by K_1 (length).
pub fn seal(key: &[u8; 64], seq: u64, packet: &[u8]) -> Vec<u8> {
    let main: &[u8; 32] = key[..32].try_into().unwrap();
    let head: &[u8; 32] = key[32..].try_into().unwrap();
    let mut out = packet.to_vec();
    chacha_xor(head, seq, 0, &mut out[..4]);
    chacha_xor(main, seq, 1, &mut out[4..]);
    let mut pk = [0; 32];
    chacha_xor(main, seq, 0, &mut pk);
    let tag = poly1305(&pk, &out);
    out.extend_from_slice(&tag);
    out
}

pub fn open_len(key: &[u8; 64], seq: u64, len: [u8; 4]) -> u32 {
    let head: &[u8; 32] = key[32..].try_into().unwrap();
    let mut l = len;
    chacha_xor(head, seq, 0, &mut l);
    u32::from_be_bytes(l)
}

/// Input is the encrypted length, body and tag. Returns the plaintext packet including its length.
pub fn open(key: &[u8; 64], seq: u64, data: &[u8]) -> Option<Vec<u8>> {
    let main: &[u8; 32] = key[..32].try_into().unwrap();
    let head: &[u8; 32] = key[32..].try_into().unwrap();
    let (ct, tag) = data.split_at(data.len().checked_sub(16)?);
    let mut pk = [0; 32];
    chacha_xor(main, seq, 0, &mut pk);
    if poly1305(&pk, ct) != tag {
        return None;
    }
    let mut out = ct.to_vec();
    chacha_xor(head, seq, 0, &mut out[..4]);
    chacha_xor(main, seq, 1, &mut out[4..]);
    Some(out)
}

pub fn put_str(out: &mut Vec<u8>, s: &[u8]) {
    out.extend_from_slice(&(s.len() as u32).to_be_bytes());
    out.extend_from_slice(s);
}

/// Contents of a canonical mpint for a positive big endian number.
pub fn mpint_content(s: &[u8]) -> Vec<u8> {
    let i = s.iter().position(|c| *c != 0).unwrap_or(s.len());
    let s = &s[i..];
    let mut v = Vec::new();
    if s.first().map_or(false, |c| c & 0x80 != 0) {
        v.push(0);
    }
    v.extend_from_slice(s);
    v
}

/// RFC 4253 7.2 with SHA-256, where session id == exchange hash.
pub fn kdf(secret: &[u8], hash: &[u8; 32], letter: u8, len: usize) -> Vec<u8> {
    let mut k = Vec::new();
    put_str(&mut k, &mpint_content(secret));
    let mut out: Vec<u8> = Vec::new();
    while out.len() < len {
        let mut d = Sha256::new();
        d.update(&k);
        d.update(hash);
        if out.is_empty() {
            d.update([letter]);
            d.update(hash);
        } else {
            d.update(&out);
        }
        out.extend_from_slice(&d.finalize());
    }
    out.truncate(len);
    out
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    Sha256::digest(data).into()
}

/// Known answers, so that a mistake here is noticed as an error of the harness.
pub fn self_test() -> Result<(), String> {
    // RFC 8439 2.5.2
    let key: Vec<u8> = (0..32)
        .map(|i| {
            u8::from_str_radix(
                &"85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b"[2 * i..2 * i + 2],
                16,
            )
            .unwrap()
        })
        .collect();
    let tag = poly1305(&key.try_into().unwrap(), b"Cryptographic Forum Research Group");
    if tag != [0xa8, 0x06, 0x1d, 0xc1, 0x30, 0x51, 0x36, 0xc6, 0xc2, 0x2b, 0x8b, 0xaf, 0x0c, 0x01, 0x27, 0xa9] {
        return Err("poly1305 self test".into());
    }
    // draft-agl-tls-chacha20poly1305: all zero key and nonce
    let b = chacha_block(&[0; 32], 0, 0);
    if b[..8] != [0x76, 0xb8, 0xe0, 0xad, 0xa0, 0xf1, 0x3d, 0x90] {
        return Err("chacha20 self test".into());
    }
    let b = chacha_block(&[0; 32], 1, 0);
    if b[..8] != [0xde, 0x9c, 0xba, 0x7b, 0xf3, 0xd6, 0x9e, 0xf5] {
        return Err("chacha20 nonce self test".into());
    }
    Ok(())
}
