//! Reference grammar of the SSH messages (RFC 4250-4254, RFC 5656), written independently of the
//! code under test: encoder, parser and generators.

use crate::crypto::{mpint_content, put_str};
use crate::rng::{small, R};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum F {
    U(u32),
    B(bool),
    S(Vec<u8>),
}

/// Kind of a field.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    U,
    B,
    /// string
    S,
    /// string that must be UTF-8
    Utf8,
    /// string that must be ASCII
    Ascii,
    /// name-list
    Names,
    /// 16 raw bytes
    Cookie,
    /// reserved uint32 that must be zero
    Zero,
    /// everything up to the end
    Rest,
    /// string containing the fields up to the matching End
    Begin,
    End,
    /// mpint
    Mp,
    /// non-zero boolean selecting a variant
    Is(bool),
}
use K::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Msg {
    pub ty: u8,
    pub f: Vec<F>,
}

pub const TYPES: &[u8] = &[
    1, 2, 3, 4, 5, 6, 20, 21, 30, 31, 50, 51, 52, 53, 60, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100,
];

pub fn grammar(ty: u8) -> Option<&'static [K]> {
    Some(match ty {
        1 => &[U, S, S],
        2 => &[S],
        3 => &[U],
        4 => &[B, Utf8, S],
        5 | 6 => &[S],
        20 => &[
            Cookie, Names, Names, Names, Names, Names, Names, Names, Names, Names, Names, B, Zero,
        ],
        21 | 52 => &[],
        30 => &[S],
        31 => &[Begin, S, S, S, End, S, Begin, S, Begin, Mp, Mp, End, End],
        51 => &[Names, B],
        53 => &[S, S],
        60 => &[S, S],
        90 => &[S, U, U, U],
        91 => &[U, U, U, U, Rest],
        92 => &[U, U, Utf8, S],
        93 => &[U, U],
        94 => &[U, S],
        95 => &[U, U, S],
        96 | 97 | 99 | 100 => &[U],
        98 => &[U, S, B, Rest],
        _ => return None,
    })
}

/// Fields after user, service and method name. The first element is the flag for methods that have one.
pub fn auth_grammar(method: &[u8], flag: Option<u8>) -> &'static [K] {
    match (method, flag) {
        (b"none", _) => &[],
        (b"publickey", Some(0)) => &[Is(false), S, S],
        (b"publickey", _) => &[Is(true), S, S, S],
        (b"password", Some(0)) => &[Is(false), S],
        (b"password", _) => &[Is(true), S, S],
        (b"hostbased", _) => &[S, S, Ascii, Utf8, S],
        _ => &[Rest],
    }
}

pub fn session_grammar(ty: &[u8]) -> Option<&'static [K]> {
    Some(match ty {
        b"pty-req" => &[S, U, U, U, U, S],
        b"x11-req" => &[B, S, S, U],
        b"env" => &[S, S],
        b"shell" => &[],
        b"exec" => &[S],
        b"subsystem" => &[S],
        b"window-change" => &[U, U, U, U],
        b"xon-xoff" => &[B],
        b"signal" => &[S],
        b"exit-status" => &[U],
        b"exit-signal" => &[S, B, Utf8, S],
        _ => return None,
    })
}

pub const SESSION_TYPES: &[&[u8]] = &[
    b"pty-req", b"x11-req", b"env", b"shell", b"exec", b"subsystem", b"window-change", b"xon-xoff",
    b"signal", b"exit-status", b"exit-signal",
];

pub const SIGNALS: &[&[u8]] = &[
    b"ABRT", b"ALRM", b"FPE", b"HUP", b"ILL", b"INT", b"KILL", b"PIPE", b"QUIT", b"SEGV", b"TERM",
    b"USR1", b"USR2",
];

pub fn names_ok(s: &[u8]) -> bool {
    s.iter().all(|c| *c < 128) && (s.is_empty() || s.split(|c| *c == b',').all(|n| !n.is_empty()))
}

pub fn names_of(s: &[u8]) -> Vec<String> {
    if s.is_empty() {
        return Vec::new();
    }
    s.split(|c| *c == b',')
        .map(|n| String::from_utf8_lossy(n).into_owned())
        .collect()
}

fn encode_fields(g: &[K], f: &[F], out: &mut Vec<u8>) {
    let mut it = f.iter();
    let mut stack: Vec<usize> = Vec::new();
    for k in g {
        match k {
            Zero => out.extend_from_slice(&[0; 4]),
            Is(b) => out.push(*b as u8),
            Begin => {
                stack.push(out.len());
                out.extend_from_slice(&[0; 4]);
            }
            End => {
                let i = stack.pop().unwrap();
                let l = (out.len() - i - 4) as u32;
                out[i..i + 4].copy_from_slice(&l.to_be_bytes());
            }
            _ => match (k, it.next().expect("field")) {
                (U, F::U(v)) => out.extend_from_slice(&v.to_be_bytes()),
                (B, F::B(v)) => out.push(*v as u8),
                (Cookie, F::S(v)) | (Rest, F::S(v)) => out.extend_from_slice(v),
                (Mp, F::S(v)) => put_str(out, &mpint_content(v)),
                (_, F::S(v)) => put_str(out, v),
                x => panic!("field mismatch {:?}", x),
            },
        }
    }
    assert!(it.next().is_none());
}

pub fn encode(m: &Msg) -> Vec<u8> {
    let mut out = vec![m.ty];
    if m.ty == 50 {
        let s = |i: usize| match &m.f[i] {
            F::S(s) => s.clone(),
            _ => unreachable!(),
        };
        put_str(&mut out, &s(0));
        put_str(&mut out, &s(1));
        let method = s(2);
        put_str(&mut out, &method);
        match (&method[..], m.f.get(3)) {
            (b"publickey", Some(F::B(b))) | (b"password", Some(F::B(b))) => {
                encode_fields(auth_grammar(&method, Some(*b as u8)), &m.f[4..], &mut out)
            }
            _ => encode_fields(auth_grammar(&method, None), &m.f[3..], &mut out),
        }
    } else {
        encode_fields(grammar(m.ty).expect("type"), &m.f, &mut out);
    }
    out
}

struct P<'a>(&'a [u8]);

impl<'a> P<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn s(&mut self) -> Option<&'a [u8]> {
        let n = self.u()?;
        self.take(n as usize)
    }
}

/// Parses the whole of `data`.
fn parse_fields(g: &[K], data: &[u8], f: &mut Vec<F>) -> Option<()> {
    let mut p = P(data);
    let mut i = 0;
    while i < g.len() {
        match g[i] {
            U => f.push(F::U(p.u()?)),
            B => f.push(F::B(p.take(1)?[0] != 0)),
            Is(b) => {
                if (p.take(1)?[0] != 0) != b {
                    return None;
                }
            }
            S | Mp => f.push(F::S(p.s()?.to_vec())),
            Utf8 => {
                let s = p.s()?;
                std::str::from_utf8(s).ok()?;
                f.push(F::S(s.to_vec()));
            }
            Ascii => {
                let s = p.s()?;
                if s.iter().any(|c| *c >= 128) {
                    return None;
                }
                f.push(F::S(s.to_vec()));
            }
            Names => {
                let s = p.s()?;
                if !names_ok(s) {
                    return None;
                }
                f.push(F::S(s.to_vec()));
            }
            Cookie => f.push(F::S(p.take(16)?.to_vec())),
            Zero => {
                if p.u()? != 0 {
                    return None;
                }
            }
            Rest => {
                let n = p.0.len();
                f.push(F::S(p.take(n)?.to_vec()))
            }
            Begin => {
                let mut depth = 1;
                let mut j = i + 1;
                while depth > 0 {
                    match g[j] {
                        Begin => depth += 1,
                        End => depth -= 1,
                        _ => {}
                    }
                    j += 1;
                }
                let s = p.s()?;
                parse_fields(&g[i + 1..j - 1], s, f)?;
                i = j - 1;
            }
            End => unreachable!(),
        }
        i += 1;
    }
    p.0.is_empty().then(|| ())
}

pub fn parse(data: &[u8]) -> Option<Msg> {
    let (&ty, rest) = data.split_first()?;
    let mut f = Vec::new();
    if ty == 50 {
        let mut p = P(rest);
        f.push(F::S(p.s()?.to_vec()));
        f.push(F::S(p.s()?.to_vec()));
        let method = p.s()?;
        f.push(F::S(method.to_vec()));
        if method == b"publickey" || method == b"password" {
            f.push(F::B(*p.0.first()? != 0));
        }
        parse_fields(auth_grammar(method, p.0.first().copied()), p.0, &mut f)?;
    } else {
        parse_fields(grammar(ty)?, rest, &mut f)?;
    }
    Some(Msg { ty, f })
}

pub fn session_parse(ty: &[u8], data: &[u8]) -> Option<Vec<F>> {
    let mut f = Vec::new();
    parse_fields(session_grammar(ty)?, data, &mut f)?;
    Some(f)
}

pub fn session_encode(ty: &[u8], f: &[F]) -> Vec<u8> {
    let mut out = Vec::new();
    encode_fields(session_grammar(ty).expect("type"), f, &mut out);
    out
}

/// What a message looks like after a round trip: signature integers become canonical.
pub fn canonical(m: &Msg) -> Msg {
    let mut m = m.clone();
    if m.ty == 31 {
        for i in 5..7 {
            if let F::S(s) = &mut m.f[i] {
                *s = mpint_content(s);
            }
        }
    }
    m
}

// Generators

pub fn gen_bytes(r: &mut R) -> Vec<u8> {
    let n = match r.below(20) {
        0..=3 => 0,
        4..=6 => 1,
        7..=13 => r.below(40),
        14..=17 => r.below(400),
        18 => *r.pick(&[31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513]),
        _ => r.below(5000),
    };
    let n = if small() && n > 40 { 40 + n % 30 } else { n };
    match r.below(4) {
        0 => vec![*r.pick(&[0u8, 0xff, 0x80, b',', b'a']); n],
        1 => (0..n).map(|_| r.range(32, 126) as u8).collect(),
        _ => r.bytes(n),
    }
}

pub fn gen_utf8(r: &mut R) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.below(300),
        _ => r.below(20),
    };
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(5) {
            0 => 'é',
            1 => '\u{ffff}',
            2 => '\u{10ffff}',
            3 => '\0',
            _ => (b'a' + r.below(26) as u8) as char,
        };
        s.push(c);
    }
    s.into_bytes()
}

pub fn gen_ascii(r: &mut R) -> Vec<u8> {
    let n = r.below(30);
    (0..n).map(|_| r.below(128) as u8).collect()
}

pub fn gen_names(r: &mut R) -> Vec<u8> {
    const NAMES: &[&str] = &[
        "none", "curve25519-sha256", "a", "x", "chacha20-poly1305@openssh.com", "password",
        "publickey", "ecdsa-sha2-nistp256", "\x01", " ", "zlib@openssh.com", "aes128-ctr",
    ];
    let n = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => r.below(60),
        _ => r.below(6),
    };
    let mut v: Vec<String> = Vec::new();
    for _ in 0..n {
        if r.chance(1, 5) {
            let l = r.range(1, 80);
            v.push(
                (0..l)
                    .map(|_| loop {
                        let c = r.below(128) as u8;
                        if c != b',' {
                            break c as char;
                        }
                    })
                    .collect(),
            );
        } else {
            v.push((*r.pick(NAMES)).to_string());
        }
    }
    v.join(",").into_bytes()
}

fn gen_fields(g: &[K], r: &mut R, f: &mut Vec<F>) {
    for k in g {
        match k {
            U => f.push(F::U(r.edge_u32())),
            B => f.push(F::B(r.chance(1, 2))),
            S | Rest => f.push(F::S(gen_bytes(r))),
            Mp => {
                let mut v = match r.below(3) {
                    0 => gen_bytes(r),
                    _ => r.bytes(32),
                };
                if r.chance(1, 2) {
                    let n = r.below(4).min(v.len());
                    v[..n].iter_mut().for_each(|c| *c = 0);
                }
                if r.chance(1, 3) {
                    if let Some(c) = v.first_mut() {
                        *c |= 0x80
                    }
                }
                if r.chance(1, 30) {
                    v.iter_mut().for_each(|c| *c = 0);
                }
                f.push(F::S(v))
            }
            Utf8 => f.push(F::S(gen_utf8(r))),
            Ascii => f.push(F::S(gen_ascii(r))),
            Names => f.push(F::S(gen_names(r))),
            Cookie => f.push(F::S(r.bytes(16))),
            Zero | Begin | End | Is(_) => {}
        }
    }
}

pub fn gen_auth(r: &mut R) -> Msg {
    let mut f = vec![F::S(gen_bytes(r)), F::S(gen_bytes(r))];
    let (m, flag): (&[u8], Option<bool>) = match r.below(7) {
        0 => (b"none", None),
        1 => (b"publickey", Some(false)),
        2 => (b"publickey", Some(true)),
        3 => (b"password", Some(false)),
        4 => (b"password", Some(true)),
        5 => (b"hostbased", None),
        _ => (b"", None),
    };
    let m = if m.is_empty() {
        loop {
            let m = match r.below(3) {
                0 => b"keyboard-interactive".to_vec(),
                1 => b"non".to_vec(),
                _ => gen_bytes(r),
            };
            if ![&b"none"[..], b"publickey", b"password", b"hostbased"].contains(&&m[..]) {
                break m;
            }
        }
    } else {
        m.to_vec()
    };
    f.push(F::S(m.clone()));
    if let Some(b) = flag {
        f.push(F::B(b));
    }
    gen_fields(auth_grammar(&m, flag.map(|b| b as u8)), r, &mut f);
    Msg { ty: 50, f }
}

pub fn gen_msg(r: &mut R) -> Msg {
    let ty = if r.chance(1, 4) { *r.pick(&[31, 50, 50, 50, 20]) } else { *r.pick(TYPES) };
    gen_msg_of(r, ty)
}

pub fn gen_msg_of(r: &mut R, ty: u8) -> Msg {
    if ty == 50 {
        return gen_auth(r);
    }
    let mut f = Vec::new();
    gen_fields(grammar(ty).unwrap(), r, &mut f);
    Msg { ty, f }
}

pub fn gen_session(r: &mut R) -> (Vec<u8>, Vec<F>) {
    let ty = *r.pick(SESSION_TYPES);
    let mut f = Vec::new();
    gen_fields(session_grammar(ty).unwrap(), r, &mut f);
    if (ty == b"signal" || ty == b"exit-signal") && r.chance(3, 4) {
        f[0] = F::S(r.pick(SIGNALS).to_vec());
    }
    (ty.to_vec(), f)
}

/// Damage an encoded message.
pub fn mutate(r: &mut R, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        match r.below(10) {
            0 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            1 => {
                let n = r.range(1, 5);
                let x = r.bytes(n);
                b.extend(x);
            }
            2 => b.push(0),
            3 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            4 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, b',', 0xc3]);
            }
            5 if !b.is_empty() => {
                let i = r.below(b.len());
                b.remove(i);
            }
            6 => {
                let i = r.below(b.len() + 1);
                b.insert(i, r.u8());
            }
            7 if b.len() >= 5 => {
                // Most fields start with a length: change one by a little or a lot.
                let i = r.below(b.len() - 3);
                let v = u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
                let v = match r.below(5) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    2 => u32::MAX - r.below(8) as u32,
                    3 => 0,
                    _ => (b.len() - i - 4) as u32,
                };
                b[i..i + 4].copy_from_slice(&v.to_be_bytes());
            }
            8 if !b.is_empty() => b[0] = r.u8(),
            _ => {
                if let Some(l) = b.last_mut() {
                    *l ^= r.u8();
                }
            }
        }
    }
}
