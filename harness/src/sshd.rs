//! The real daemon over TCP (C25, C26, C28).

use crate::client::{auth_req, blob, describe, service_request, sign_data, Hs};
use crate::crypto::put_str;
use crate::helper::{pattern, summary};
use crate::procs::*;
use crate::rng::R;
use crate::run::{CaseResult, Check, Ctx};
use crate::tcp::*;
use crate::wire::{self, F};

fn helper(rest: &str) -> Vec<u8> {
    format!("{}/helper {}", root().display(), rest).into_bytes()
}

fn shell() -> std::path::PathBuf {
    root().join("helper-shell")
}

fn user(r: &mut R) -> Vec<u8> {
    match r.below(6) {
        5 => {
            const A: &[&[u8]] = &[b"admin", b"a\0b", b"\0", b"root\0x", b"a b", b"a\nb", b"../x", b"nobody", b"-l", b"root ", b"%s%n", b"test"];
            r.pick(A).to_vec()
        }
        0 => "ünïcode".as_bytes().to_vec(),
        1 => vec![],
        2 => b"root".to_vec(),
        3 => {
            let n = if r.chance(1, 6) { r.range(1, 32_000) } else { r.range(1, 3000) };
            vec![b'u'; n]
        }
        _ => format!("user{}", r.below(100)).into_bytes(),
    }
}

// ---------------------------------------------------------------- C25

/// A request that must not be granted, with a description.
fn forgery(r: &mut R, c: &Tcp, donor: &[u8; 32], recorded: &[u8], key: &Key, name: &[u8]) -> (Vec<u8>, &'static str) {
    const ED: &[u8] = b"ssh-ed25519";
    let svc = b"ssh-connection";
    let pk = |user: &[u8], service: &[u8], alg: &[u8], kb: &[u8], sb: &[u8]| {
        auth_req(user, service, b"publickey", |v| {
            v.push(1);
            put_str(v, alg);
            put_str(v, kb);
            put_str(v, sb);
        })
    };
    let kb = key.blob();
    let good = key.sign(&sign_data(&c.id, name, svc, ED, &kb));
    let sb = |s: &[u8]| blob(ED, s);
    match r.below(28) {
        0 | 1 => {
            let mut s = good.clone();
            let i = r.below(512);
            s[i / 8] ^= 1 << (i % 8);
            (pk(name, svc, ED, &kb, &sb(&s)), "altered signature")
        }
        2 => {
            let mut k = key.public;
            let i = r.below(256);
            k[i / 8] ^= 1 << (i % 8);
            let kb = blob(ED, &k);
            let s = key.sign(&sign_data(&c.id, name, svc, ED, &kb));
            (pk(name, svc, ED, &kb, &sb(&s)), "altered key")
        }
        3 => {
            let s = key.sign(&sign_data(donor, name, svc, ED, &kb));
            (pk(name, svc, ED, &kb, &sb(&s)), "signature for another session")
        }
        4 => {
            let mut other = name.to_vec();
            match r.below(3) {
                0 => other.push(b'x'),
                1 => {
                    other.pop();
                    other.insert(0, b'q');
                }
                _ => other = b"another".to_vec(),
            }
            let s = key.sign(&sign_data(&c.id, &other, svc, ED, &kb));
            (pk(name, svc, ED, &kb, &sb(&s)), "signature for another user")
        }
        5 => {
            let s = key.sign(&sign_data(&c.id, name, b"ssh-userauth", ED, &kb));
            (pk(name, svc, ED, &kb, &sb(&s)), "signature for another service")
        }
        6 => {
            let k = Key::new(r);
            let s = k.sign(&sign_data(&c.id, name, svc, ED, &kb));
            (pk(name, svc, ED, &kb, &sb(&s)), "signature by another key")
        }
        7 => {
            let k = Key::new(r);
            let s = k.sign(&sign_data(&c.id, name, svc, ED, &k.blob()));
            (pk(name, svc, ED, &kb, &sb(&s)), "signature by and for another key")
        }
        8 => {
            let s = key.sign(&sign_data(&c.id, name, svc, b"ssh-rsa", &kb));
            (pk(name, svc, ED, &kb, &sb(&s)), "signature for another algorithm")
        }
        9 | 10 => (recorded.to_vec(), "replayed from another session"),
        11 => {
            let n = r.below(64);
            (pk(name, svc, ED, &kb, &sb(&good[..n])), "truncated signature")
        }
        12 => {
            let n = r.range(1, 64);
            (pk(name, svc, ED, &kb, &sb(&[&good[..], &r.bytes(n)].concat())), "extended signature")
        }
        13 => {
            let alg = *r.pick(&[&b"ssh-rsa"[..], b"ecdsa-sha2-nistp256", b"ssh-ed2551", b"ssh-ed25519x", b"", b"SSH-ED25519", b"ssh-ed25519-cert-v01@openssh.com"]);
            let kb = blob(alg, &key.public);
            let s = key.sign(&sign_data(&c.id, name, svc, alg, &kb));
            (pk(name, svc, alg, &kb, &blob(alg, &s)), "other algorithm")
        }
        14 => {
            let kb = blob(b"ssh-rsa", &key.public);
            let s = key.sign(&sign_data(&c.id, name, svc, ED, &kb));
            (pk(name, svc, ED, &kb, &sb(&s)), "key of another algorithm")
        }
        15 => (pk(name, svc, ED, &kb, &blob(b"ssh-rsa", &good)), "signature of another algorithm"),
        16 => (auth_req(name, svc, b"none", |_| ()), "none"),
        17 => {
            let n = r.below(40);
            let p = match r.below(4) {
                0 => name.to_vec(),
                1 => r.pick(&[&b""[..], b"password", b"root", b"admin", b"123456", b"secret", b"test"]).to_vec(),
                2 => key.public.to_vec(),
                _ => r.bytes(n),
            };
            (
                auth_req(name, svc, b"password", |v| {
                    v.push(0);
                    put_str(v, &p)
                }),
                "password",
            )
        }
        18 => (
            auth_req(name, svc, b"keyboard-interactive", |v| {
                put_str(v, b"");
                put_str(v, b"")
            }),
            "keyboard-interactive",
        ),
        19 => (
            auth_req(name, svc, b"hostbased", |v| {
                put_str(v, ED);
                put_str(v, &kb);
                put_str(v, b"host");
                put_str(v, b"user");
                put_str(v, &sb(&good));
            }),
            "hostbased",
        ),
        20 => (
            auth_req(name, svc, b"publickey", |v| {
                v.push(0);
                put_str(v, ED);
                put_str(v, &kb);
            }),
            "query only",
        ),
        21 => (pk(name, svc, ED, &kb, &sb(&[])), "empty signature"),
        22 => (pk(name, svc, ED, &kb, &sb(&[0; 64])), "zero signature"),
        23 => {
            // S + L
            const L: [u8; 32] = [
                0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0,
                0, 0, 0, 0, 0, 0, 0, 0x10,
            ];
            let mut s = good.clone();
            let mut carry = 0u16;
            for i in 0..32 {
                let v = s[32 + i] as u16 + L[i] as u16 + carry;
                s[32 + i] = v as u8;
                carry = v >> 8;
            }
            (pk(name, svc, ED, &kb, &sb(&s)), "signature that is not canonical")
        }
        24 => {
            // The flag is not part of what was signed
            let mut d = sign_data(&c.id, name, svc, ED, &kb);
            let i = 4 + 32 + 1 + 4 + name.len() + 4 + svc.len() + 4 + 9;
            assert_eq!(d[i], 1, "harness: flag");
            d[i] = 0;
            (pk(name, svc, ED, &kb, &sb(&key.sign(&d))), "signature over a query")
        }
        25 => {
            let d = sign_data(&c.id, name, svc, ED, &kb);
            let n = r.below(d.len());
            (pk(name, svc, ED, &kb, &sb(&key.sign(&d[..n]))), "signature over less")
        }
        26 => {
            let mut d = sign_data(&c.id, name, svc, ED, &kb);
            let i = r.below(d.len() * 8);
            d[i / 8] ^= 1 << (i % 8);
            (pk(name, svc, ED, &kb, &sb(&key.sign(&d))), "signature over altered data")
        }
        _ => {
            let n = r.below(60);
            let m = *r.pick(&[&b""[..], b"publickeyx", b"gssapi-with-mic", b"PUBLICKEY"]);
            let junk = r.bytes(n);
            (auth_req(name, svc, m, |v| v.extend_from_slice(&junk)), "unknown method")
        }
    }
}

fn start_command(c: &mut Tcp, remote: u32, cmd: &[u8]) {
    let mut v = vec![90];
    put_str(&mut v, b"session");
    for x in [0u32, 100_000, 30_000] {
        v.extend_from_slice(&x.to_be_bytes());
    }
    c.send(&v);
    exec(c, remote, cmd, true);
}

fn exec(c: &mut Tcp, remote: u32, cmd: &[u8], reply: bool) {
    let mut v = vec![98];
    v.extend_from_slice(&remote.to_be_bytes());
    put_str(&mut v, b"exec");
    v.push(reply as u8);
    put_str(&mut v, cmd);
    c.send(&v);
}

fn simple(command: Option<Vec<u8>>, input: Vec<u8>) -> Job {
    Job { command, input, eof: true, window: 1 << 20, max_packet: 1 << 15, chunk: 1 << 15 }
}

fn c25(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let sc = Scratch::new();
    let mut d = Daemon::start(&sc, Some(&shell()), None);
    let addr = (d.port, d.pgid);
    let mut log: Vec<String> = Vec::new();
    let res = (|| -> Result<(), String> {
        // Somebody else's session, whose request gets recorded.
        let key = Key::new(r);
        let name = user(r);
        let mut donor = Tcp::connect(addr, r).map_err(|e| e.to_string())?;
        donor.handshake(&Hs::plain(r)).map_err(|e| format!("handshake: {}", e))?;
        donor.service().map_err(|e| format!("service: {}", e))?;
        let recorded = donor.signed_request(&key, &name);
        if r.chance(1, 2) {
            donor.login(&key, &name).map_err(|e| format!("first login: {}", e))?;
            ctx.count("genuine_logins", 1);
        }
        for i in 0..r.range(2, 5) {
            let mut c = Tcp::connect(addr, r).map_err(|e| e.to_string())?;
            let h = if r.chance(1, 2) { Hs::random(r) } else { Hs::plain(r) };
            c.handshake(&h).map_err(|e| format!("handshake: {}", e))?;
            c.service().map_err(|e| format!("service: {}", e))?;
            if c.id == donor.id {
                return Err("two sessions have the same identifier".into());
            }
            let mut over = false;
            for _ in 0..r.range(0, 5) {
                let (m, what) = forgery(r, &c, &donor.id, &recorded, &key, &name);
                log.push(format!("connection {}: {}", i, what));
                c.send(&m);
                ctx.count(&format!("refused: {}", what), 1);
                match c.recv("answer") {
                    Ok(p) if p[0] == 51 => ctx.count("refusals", 1),
                    Ok(p) if p[0] == 60 && what == "query only" => ctx.count("queries", 1),
                    Ok(p) if p == [52] => return Err(format!("granted although: {}", what)),
                    Ok(p) => return Err(format!("answer to {}: {}", what, describe(&p))),
                    Err(Fail::Closed) => {
                        // Allowed, but then this connection is over.
                        ctx.count("connections_ended", 1);
                        over = true;
                        break;
                    }
                    Err(e) => return Err(format!("after {}: {}", what, e)),
                }
                ctx.sig(&m);
            }
            if over {
                continue;
            }
            if r.chance(1, 2) {
                // Whatever was refused must not have opened the door.
                let mark = sc.0.join(format!("mark{}", i));
                start_command(&mut c, 0, &helper(&format!("mark {}", mark.display())));
                log.push(format!("connection {}: premature command", i));
                loop {
                    match c.recv("end of connection") {
                        Ok(p) if matches!(p[0], 91 | 99) => return Err(format!("without login: {}", describe(&p))),
                        Ok(p) if p == [52] => return Err("login granted for a premature command".into()),
                        Ok(p) if matches!(p[0], 3 | 51 | 92 | 100 | 1) => {
                            if p[0] == 100 || p[0] == 1 {
                                break;
                            }
                        }
                        Ok(p) => return Err(format!("answer to a premature command: {}", describe(&p))),
                        Err(Fail::Closed) => break,
                        Err(e) => return Err(format!("after a premature command: {}", e)),
                    }
                }
                ctx.count("premature_commands", 1);
                continue;
            }
            let (k2, n2) = if r.chance(1, 2) { (Key::new(r), user(r)) } else { (Key::new(r), name.clone()) };
            c.login(&k2, &n2).map_err(|e| format!("genuine login: {}", e))?;
            ctx.count("genuine_logins", 1);
            if r.chance(1, 4) {
                let good = sc.0.join(format!("good{}", i));
                let done = run_jobs(&mut c, &[simple(Some(helper(&format!("mark {}", good.display()))), vec![])]).map_err(|e| format!("command after login: {}", e))?;
                if done[0].started != Some(true) || !good.exists() {
                    return Err("the command of a genuine login does not run".into());
                }
                ctx.count("commands_after_login", 1);
            }
        }
        Ok(())
    })();
    let marks: Vec<_> = snapshot(&sc.0).into_keys().filter(|k| k.starts_with(b"mark")).collect();
    if !marks.is_empty() {
        return Err(format!("a command ran without login: {:?}", log));
    }
    res.map_err(|e| format!("{}\n{}\n{}", e, log.join("\n"), d.dying().unwrap_or_default()))?;
    ctx.sample(|| log.join("; "));
    Ok(())
}

// ---------------------------------------------------------------- C26

enum Want {
    Fail,
    Run { out: Vec<u8>, err: Vec<u8>, status: Option<u32> },
}

impl Want {
    fn size(&self) -> usize {
        match self {
            Want::Fail => 0,
            Want::Run { out, err, .. } => out.len() + err.len(),
        }
    }
}

fn arg(r: &mut R) -> Vec<u8> {
    const A: &[&str] = &[
        "a", "'b", "c'", "\"d", "$HOME", "*", "?", "`id`", "$(id)", ";", "|", "&&", ">x", "<x", "\\", "\\n", "--", "-n", "~", "{a,b}", "é", "#", "!", "=",
        "\u{1}", "\u{b}", "%s", "a\u{b}b", "à", "Å", "\u{a0}", "\u{85}", "\u{2003}", "\u{1f}",
    ];
    match r.below(4) {
        0 => {
            let n = r.range(1, 40);
            (0..n).map(|_| *r.pick(b"abcXYZ019$'\"\\*?;|&<>()[]{}~#!%^=+-_.,:/@")).collect()
        }
        1 => vec![b'x'; r.range(1, 3000)],
        2 => r.pick(&[&[0xff, b'x', 0xfe][..], &[0x85], &[0xa0], &[0xc3, 0xa0], &[0x1c]]).to_vec(),
        _ => r.pick(A).as_bytes().to_vec(),
    }
}

fn gen_job(r: &mut R, sc: &Scratch, shell: bool, big: bool) -> (Job, Want, &'static str) {
    let window = *r.pick(&[1 << 21, 100_000, 32768, 5000, 1000]);
    let max_packet = *r.pick(&[1 << 15, 1 << 17, 4096, 1000]);
    let size = |r: &mut R| -> usize {
        let n = match r.below(8) {
            0 => 0,
            1 => 1,
            2 if big => r.below(3_000_000),
            2..=4 => r.below(100_000),
            5 => 1 << r.range(12, 18),
            _ => r.below(2000),
        };
        // Every window costs a round trip.
        n.min(window as usize * 40)
    };
    let mut j = Job { command: None, input: vec![], eof: true, window, max_packet, chunk: *r.pick(&[1 << 15, 1 << 15, 5000, 1000]) };
    let exit = *r.pick(&[0, 0, 1, 2, 3, 42, 127, 128, 254, 255]);
    let run = |out: Vec<u8>, err: Vec<u8>, st: u64| Want::Run { out, err, status: Some(st as u32) };
    match r.below(16) {
        0 | 1 => {
            // A few, or as many as fit in a packet.
            let n = if r.chance(1, 12) { r.range(50, 6000) } else { r.below(8) };
            let args: Vec<Vec<u8>> = (0..n).map(|_| if n < 50 { arg(r) } else { vec![b'a'; r.range(1, 3)] }).collect();
            let ws = |r: &mut R, min: usize| -> Vec<u8> { (0..r.range(min, if n < 50 { 3 } else { 1 })).map(|_| *r.pick(b" \t \n  \r\x0c")).collect() };
            let mut cmd = ws(r, 0);
            // By its path, or by its name alone.
            cmd.extend(if r.chance(1, 3) { b"helper args".to_vec() } else { helper("args") });
            let mut want = Vec::new();
            for a in &args {
                cmd.extend(ws(r, 1));
                cmd.extend_from_slice(a);
                want.extend_from_slice(&(a.len() as u32).to_be_bytes());
                want.extend_from_slice(a);
            }
            cmd.extend(ws(r, 0));
            j.command = Some(cmd);
            (j, run(want, vec![], 0), "arguments")
        }
        2..=4 => {
            let (seed, o, e) = (r.below(1 << 30) as u64, size(r), size(r));
            let chunk = *r.pick(&[1 << 16, 4096, 1000, 40000]);
            j.command = Some(helper(&format!("io {} {} {} {} {} {}", seed, o, e, exit, chunk, r.below(4))));
            j.eof = r.chance(1, 2);
            if r.chance(1, 3) {
                let n = r.below(200_000);
                // Nobody reads it.
                j.input = r.bytes(n);
            }
            (j, run(pattern(seed, o), pattern(seed + 1, e), exit), "output")
        }
        5..=7 => {
            let n = size(r);
            j.input = r.bytes(n);
            j.command = Some(helper(&format!("cat {} {}", exit, r.pick(&[1 << 16, 1000, 4096]))));
            let want = j.input.clone();
            (j, run(want, vec![], exit), "echo")
        }
        8 | 9 => {
            let n = size(r);
            j.input = r.bytes(n);
            j.command = Some(helper(&format!("sum {}", exit)));
            let want = summary(&j.input).into_bytes();
            (j, run(vec![], want, exit), "input")
        }
        10 => {
            let n = size(r) + 1;
            j.input = r.bytes(n);
            let k = r.below(n);
            j.eof = r.chance(1, 2);
            j.command = Some(helper(&format!("head {} {}", k, exit)));
            let want = j.input[..k].to_vec();
            (j, run(want, vec![], exit), "part of the input")
        }
        11 => {
            let k = size(r);
            j.input = r.bytes(1000);
            j.command = Some(helper(&format!("nostdin {} {}", k, exit)));
            (j, run(pattern(7, k), vec![], exit), "standard input closed")
        }
        12 => {
            let s = *r.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGSEGV, libc::SIGABRT, libc::SIGINT, libc::SIGHUP, libc::SIGPIPE]);
            j.command = Some(helper(&format!("kill {}", s)));
            (j, Want::Run { out: b"before".to_vec(), err: vec![], status: None }, "killed")
        }
        13 | 14 => {
            let c: Vec<u8> = match r.below(8) {
                0 => vec![],
                1 => b"  \t ".to_vec(),
                2 => b"/nonexistent/program arg".to_vec(),
                3 => b"no-such-program-anywhere".to_vec(),
                4 => format!("{} x", sc.0.display()).into_bytes(),
                5 => {
                    sc.write("plain", b"not a program");
                    format!("{}/plain", sc.0.display()).into_bytes()
                }
                6 => [&helper("args ")[..], b"a\0b"].concat(),
                _ => b"true;false".to_vec(),
            };
            j.command = Some(c);
            (j, Want::Fail, "cannot be started")
        }
        _ => {
            if shell {
                let n = size(r);
                j.input = r.bytes(n);
                let want = [b"shell 1\n", &j.input[..]].concat();
                (j, run(want, b"prompt$ ".to_vec(), 42), "shell")
            } else {
                (j, Want::Fail, "no shell")
            }
        }
    }
}

fn judge(j: &Job, w: &Want, d: &Done) -> Result<(), String> {
    match w {
        Want::Fail => {
            if d.started != Some(false) {
                return Err("success although it cannot be started".into());
            }
            if !d.out.is_empty() || !d.err.is_empty() {
                return Err("output although it was not started".into());
            }
        }
        Want::Run { out, err, status } => {
            if d.started != Some(true) {
                return Err("not started".into());
            }
            if d.out != *out {
                return Err(format!("standard output: {}", crate::client::diff(out, &d.out)));
            }
            if d.err != *err {
                return Err(format!("standard error: {}", crate::client::diff(err, &d.err)));
            }
            match (status, d.status) {
                (None, Some(0)) => return Err("killed by a signal but reported as success".into()),
                (None, _) => {}
                (Some(a), Some(b)) if *a == b => {}
                (a, b) => return Err(format!("exit status {:?} instead of {:?}", b, a)),
            }
            if !d.eof {
                return Err("no end-of-file".into());
            }
        }
    }
    let _ = j;
    Ok(())
}

fn show(j: &Job) -> String {
    match &j.command {
        Some(c) => format!(
            "exec {:?} with {} bytes of input, window {}, packets of {}, chunks of {}",
            String::from_utf8_lossy(&c[..c.len().min(200)]),
            j.input.len(),
            j.window,
            j.max_packet,
            j.chunk
        ),
        None => format!("shell with {} bytes of input", j.input.len()),
    }
}

fn c26(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let sc = Scratch::new();
    let with_shell = r.chance(3, 4);
    let sh = shell();
    let mut d = Daemon::start(&sc, with_shell.then_some(&sh), None);
    let addr = (d.port, d.pgid);
    if r.chance(1, 12) {
        return openssh(ctx, r, &sc, &mut d, with_shell);
    }
    let big = r.chance(1, 6);
    // Very many jobs, one after the other or at once.
    let many = if r.chance(1, 50) { r.range(1, 2) } else { 0 };
    let conns = if many == 0 { *r.pick(&[1, 1, 2, 3]) } else { 1 };
    if many != 0 {
        ctx.count("connections_with_many_jobs", 1);
    }
    let mut plans = Vec::new();
    for _ in 0..conns {
        let rounds = if many == 1 { r.range(130, 270) } else { r.range(1, 2) };
        let mut v = Vec::new();
        for _ in 0..rounds {
            let n = match many {
                1 => r.range(1, 2),
                2 => r.range(8, 40),
                _ => *r.pick(&[1, 1, 2, 4]),
            };
            let mut jobs = (0..n).map(|_| gen_job(r, &sc, with_shell, big)).collect::<Vec<_>>();
            while many != 0 && jobs.iter().map(|j| j.0.input.len() + j.1.size()).sum::<usize>() > 100_000 {
                // Many small ones.
                let i = (0..jobs.len()).max_by_key(|i| jobs[*i].0.input.len() + jobs[*i].1.size()).unwrap();
                jobs[i] = gen_job(r, &sc, with_shell, false);
            }
            v.push(jobs);
        }
        plans.push((v, r.fork()));
    }
    let results: Vec<Result<Vec<(String, u64)>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .into_iter()
            .map(|(rounds, mut r)| {
                s.spawn(move || -> Result<Vec<(String, u64)>, String> {
                    let mut counts = Vec::new();
                    let name = user(&mut r);
                    let mut c = Tcp::established(addr, &mut r, &name).map_err(|e| format!("login: {}", e))?;
                    for jobs in rounds {
                        let (js, ws): (Vec<Job>, Vec<(Want, &str)>) = jobs.into_iter().map(|(j, w, k)| (j, (w, k))).unzip();
                        let all = js.iter().map(show).collect::<Vec<_>>().join("\n");
                        if c.piece < 100 && js.iter().map(|j| j.input.len()).sum::<usize>() > 20_000 {
                            c.piece = 3000;
                        }
                        if std::env::var_os("VH_JOBS").is_some() {
                            eprintln!("{} bytes at a time:\n{}", c.piece, all);
                        }
                        let done = run_jobs(&mut c, &js).map_err(|e| format!("{}\n{}", e, all))?;
                        for ((j, (w, k)), d) in js.iter().zip(&ws).zip(&done) {
                            judge(j, w, d).map_err(|e| format!("{}: {}\n{}\nall of the connection:\n{}", k, e, show(j), all))?;
                            counts.push((format!("jobs: {}", k), 1));
                            counts.push(("jobs".into(), 1));
                            counts.push(("output_bytes".into(), (d.out.len() + d.err.len()) as u64));
                            counts.push(("input_bytes".into(), j.input.len() as u64));
                            if d.out.len() + d.err.len() > j.window as usize {
                                counts.push(("outputs_beyond_the_window".into(), 1));
                            }
                        }
                        if js.len() > 1 {
                            counts.push(("concurrent_channels".into(), js.len() as u64));
                        }
                    }
                    Ok(counts)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| panic!("harness: client thread"))).collect()
    });
    for res in results {
        match res {
            Ok(counts) => {
                for (k, n) in counts {
                    ctx.count(&k, n);
                }
            }
            Err(e) => return Err(format!("{}\n{}", e, d.dying().unwrap_or_default())),
        }
    }
    if let Some(e) = d.dying() {
        return Err(e);
    }
    if !with_shell {
        ctx.count("daemons_without_shell", 1);
    }
    let x = r.u64();
    ctx.sig(&x.to_le_bytes());
    Ok(())
}

/// The OpenSSH client instead of the harness's own.
fn openssh(ctx: &mut Ctx, r: &mut R, sc: &Scratch, d: &mut Daemon, with_shell: bool) -> CaseResult {
    use std::process::{Command, Stdio};
    if !std::path::Path::new("/usr/bin/ssh").exists() || !std::path::Path::new("/usr/bin/ssh-keygen").exists() {
        return Ok(());
    }
    let home = sc.mkdir("home");
    let key = sc.0.join("id");
    let st = Command::new("/usr/bin/ssh-keygen")
        .args(["-q", "-t", "ed25519", "-N", "", "-f"])
        .arg(&key)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .status()
        .expect("harness: ssh-keygen");
    if !st.success() {
        panic!("harness: ssh-keygen failed");
    }
    for _ in 0..2 {
        let (j, w, kind) = loop {
            let (j, w, k) = gen_job(r, sc, with_shell, false);
            // Its command line cannot carry NUL, and without a command it wants a terminal.
            if let Some(c) = &j.command {
                if !c.contains(&0) && !c.iter().all(|c| c.is_ascii_whitespace()) && std::str::from_utf8(c).is_ok() {
                    break (j, w, k);
                }
            }
        };
        let cmd = j.command.clone().unwrap();
        let mut c = Command::new("/usr/bin/ssh");
        c.env_clear().env("HOME", &home).env("PATH", "/usr/bin:/bin");
        c.args(["-F", "none", "-T", "-o", "StrictHostKeyChecking=no", "-o", "UserKnownHostsFile=/dev/null", "-o", "LogLevel=ERROR", "-o", "BatchMode=yes", "-o", "IdentitiesOnly=yes"]);
        c.arg("-i").arg(&key).arg("-p").arg(d.port.to_string()).arg("someone@127.0.0.1").arg(os(&cmd));
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("harness: ssh");
        let (mut i, mut o, mut e) = (child.stdin.take().unwrap(), child.stdout.take().unwrap(), child.stderr.take().unwrap());
        let input = j.input.clone();
        let pid = child.id() as i32;
        let finished = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let stalled = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (f2, s2, pgid) = (finished.clone(), stalled.clone(), d.pgid);
        let dog = std::thread::spawn(move || {
            let mut n = 0;
            while !f2.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                n = if group_asleep(pgid) && state(pid) == Some('S') { n + 1 } else { 0 };
                if n > 150 {
                    s2.store(true, std::sync::atomic::Ordering::SeqCst);
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                    return;
                }
            }
        });
        let th = std::thread::spawn(move || {
            use std::io::Write;
            let _ = i.write_all(&input);
        });
        let te = std::thread::spawn(move || {
            let mut v = Vec::new();
            let _ = std::io::Read::read_to_end(&mut e, &mut v);
            v
        });
        let mut out = Vec::new();
        let _ = std::io::Read::read_to_end(&mut o, &mut out);
        let st = child.wait().expect("harness: ssh");
        finished.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = dog.join();
        let _ = th.join();
        let err = te.join().unwrap_or_default();
        let what = format!("OpenSSH client: {}", show(&j));
        if stalled.load(std::sync::atomic::Ordering::SeqCst) {
            return Err(format!("stalled\n{}", what));
        }
        match &w {
            Want::Fail => {
                if st.success() {
                    return Err(format!("success although it cannot be started\n{}", what));
                }
            }
            Want::Run { out: wo, err: we, status } => {
                if out != *wo {
                    return Err(format!("standard output: {}\n{}\n{}", crate::client::diff(wo, &out), String::from_utf8_lossy(&err[..err.len().min(300)]), what));
                }
                if err != *we {
                    return Err(format!("standard error: {}\n{}", crate::client::diff(we, &err), what));
                }
                match status {
                    Some(s) if st.code() != Some(*s as i32) => return Err(format!("{} instead of {}\n{}", st, s, what)),
                    None if st.success() => return Err(format!("killed but reported as success\n{}", what)),
                    _ => {}
                }
            }
        }
        ctx.count("jobs: openssh client", 1);
        ctx.count(&format!("openssh: {}", kind), 1);
        ctx.count("jobs", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C28

/// A well-behaved client must be served.
fn witness(addr: (u16, i32), r: &mut R) -> Result<(), String> {
    let mut c = Tcp::established(addr, r, b"witness").map_err(|e| format!("a well-behaved client afterwards: {}", e))?;
    c.piece = 1 << 20;
    let n = r.below(3000);
    let input = r.bytes(n);
    let j = simple(Some(helper("cat 7 65536")), input.clone());
    let d = run_jobs(&mut c, &[j]).map_err(|e| format!("a well-behaved client afterwards: {}", e))?;
    if d[0].out != input || d[0].status != Some(7) {
        return Err(format!("a well-behaved client afterwards got {} bytes and status {:?}", d[0].out.len(), d[0].status));
    }
    Ok(())
}

/// One hostile client. Returns what it did.
fn attack(addr: (u16, i32), r: &mut R, sc: &Scratch) -> String {
    let Ok(mut c) = Tcp::connect(addr, r) else { return "cannot connect".into() };
    let reset = r.chance(1, 2);
    let kind = r.below(10);
    if kind == 0 {
        let n = r.below(3000);
        let b = r.bytes(n);
        if r.chance(1, 2) {
            c.raw(b"SSH-2.0-x\r\n");
        }
        c.raw(&b);
        let _ = c.flush();
        if r.chance(1, 2) {
            let _ = c.rest();
        }
        c.abandon(reset);
        return "garbage".into();
    }
    if kind == 1 {
        // Damaged handshake
        let h = Hs::random(r);
        c.raw(&[&h.ident[..], b"\r\n"].concat());
        let mut p = if r.chance(1, 2) {
            h.kexinit()
        } else {
            c.send(&h.kexinit());
            let mut p = vec![30];
            put_str(&mut p, &h.public());
            p
        };
        let mut fr = c.packet(&p);
        match r.below(4) {
            0 => {
                let i = r.below(fr.len());
                fr[i] = r.u8();
            }
            1 => fr.truncate(r.below(fr.len())),
            2 => fr[..4].copy_from_slice(&r.edge_u32().to_be_bytes()),
            _ => {
                let i = r.below(p.len());
                p[i] ^= 1 << r.below(8);
                fr = c.packet(&p);
            }
        }
        c.raw(&fr);
        let _ = c.flush();
        c.abandon(reset);
        return "damaged handshake".into();
    }
    if c.handshake(&Hs::plain(r)).is_err() {
        return "no handshake".into();
    }
    if kind == 2 {
        // Everything the authentication has to refuse
        if r.chance(4, 5) && c.service().is_err() {
            return "no service".into();
        }
        let key = Key::new(r);
        for _ in 0..r.range(1, 6) {
            let name = match r.below(4) {
                0 => vec![0xff, 0xfe],
                1 => vec![0xc3],
                2 => {
                    let n = r.below(30_000);
                    r.bytes(n)
                }
                _ => user(r),
            };
            let m = match r.below(8) {
                0 => c.signed_request(&key, &name),
                1 => auth_req(&name, b"ssh-connection", b"password", |v| {
                    v.push(1);
                    put_str(v, b"a");
                    put_str(v, b"b")
                }),
                2 => auth_req(&name, b"ssh-connection", b"password", |v| {
                    v.push(0);
                    put_str(v, b"a")
                }),
                3 => {
                    let m = auth_req(&name, b"x", b"publickey", |_| ());
                    let n = r.below(m.len() + 1);
                    m[..n].to_vec()
                }
                4 => {
                    let n = r.below(70);
                    let (a, b) = (r.bytes(n), r.bytes(n));
                    auth_req(&name, b"ssh-connection", b"publickey", |v| {
                        v.push(1);
                        put_str(v, b"ssh-ed25519");
                        put_str(v, &blob(b"ssh-ed25519", &a));
                        put_str(v, &blob(b"ssh-ed25519", &b));
                    })
                }
                5 => service_request(r.pick(&[&b"ssh-connection"[..], b"ssh-userauth", b"", b"x"])),
                6 => {
                    let k = r.bytes(32);
                    let s = r.bytes(64);
                    auth_req(&name, b"ssh-connection", b"publickey", |v| {
                        v.push(1);
                        put_str(v, b"ssh-ed25519");
                        put_str(v, &blob(b"ssh-ed25519", &k));
                        put_str(v, &blob(b"ssh-ed25519", &s));
                    })
                }
                _ => forgery(r, &c, &[0; 32], b"\x32", &key, &name).0,
            };
            if m.is_empty() {
                continue;
            }
            c.send(&m);
        }
        let _ = c.flush();
        if r.chance(1, 2) {
            while let Ok(Some(_)) = c.try_recv() {}
        }
        c.abandon(reset);
        return "authentication".into();
    }
    let key = Key::new(r);
    if c.service().is_err() || c.login(&key, b"mallory").is_err() {
        return "no login".into();
    }
    let what = match kind {
        3 | 4 => {
            // Random messages
            for _ in 0..r.range(1, 10) {
                let m = match r.below(4) {
                    0 => {
                        let n = r.below(100) + 1;
                        r.bytes(n)
                    }
                    _ => {
                        let mut m = gen_channel_message(r);
                        if r.chance(1, 4) {
                            let i = r.below(m.len());
                            m[i] ^= 1 << r.below(8);
                        }
                        if r.chance(1, 8) {
                            let n = r.range(1, m.len());
                            m.truncate(n);
                        }
                        m
                    }
                };
                c.send(&m);
            }
            "random messages"
        }
        5 => {
            for i in 0..r.range(1, 4) {
                let cmd: Vec<u8> = match r.below(9) {
                    0 => vec![],
                    1 => b"\0".to_vec(),
                    2 => b"/nonexistent".to_vec(),
                    3 => vec![b'x'; 20_000],
                    4 => [&helper("args")[..], &b" a".repeat(9000)[..]].concat(),
                    5 => b"\xff\xfe".to_vec(),
                    6 => b"/".to_vec(),
                    7 => helper("kill 9"),
                    _ => helper("sleep"),
                };
                start_command(&mut c, i as u32, &cmd);
                if r.chance(1, 3) {
                    exec(&mut c, i as u32, &cmd, r.chance(1, 2));
                }
            }
            "odd commands"
        }
        6 => {
            start_command(&mut c, 0, &helper("flood"));
            let _ = c.flush();
            std::thread::sleep(std::time::Duration::from_millis(r.below(30) as u64));
            "leaves while output comes"
        }
        7 => {
            start_command(&mut c, 0, &helper(r.pick(&["sleep", "cat 0 65536", "io 1 100 100 0 10 3", "nostdin 10 0"])));
            for _ in 0..r.below(20) {
                let n = r.below(3000);
                let mut v = vec![94, 0, 0, 0, 0];
                put_str(&mut v, &r.bytes(n));
                c.send(&v);
            }
            if r.chance(1, 2) {
                c.send_msg(96, vec![F::U(0)]);
            }
            if r.chance(1, 2) {
                c.send_msg(97, vec![F::U(0)]);
            }
            "leaves a process"
        }
        8 => {
            // No shell may be available
            let mut v = vec![90];
            put_str(&mut v, b"session");
            for x in [0u32, r.edge_u32(), r.edge_u32()] {
                v.extend_from_slice(&x.to_be_bytes());
            }
            c.send(&v);
            let mut v = vec![98, 0, 0, 0, 0];
            put_str(&mut v, b"shell");
            v.push(1);
            c.send(&v);
            "shell"
        }
        _ => {
            // Damaged packet
            let m = gen_channel_message(r);
            let mut p = c.packet(&m);
            let i = r.below(p.len());
            p[i] ^= 1 << r.below(8);
            if r.chance(1, 2) {
                p.truncate(r.below(p.len()));
            }
            c.raw(&p);
            "damaged packet"
        }
    };
    let _ = sc;
    let _ = c.flush();
    let wait = r.below(3);
    if wait > 0 {
        let t = std::time::Instant::now();
        while t.elapsed().as_millis() < wait as u128 * 5 {
            if c.try_recv().is_err() {
                break;
            }
        }
    }
    c.abandon(reset);
    what.into()
}

fn gen_channel_message(r: &mut R) -> Vec<u8> {
    let ch = *r.pick(&[0u32, 0, 1, 2, 77, u32::MAX]);
    let enc = |ty: u8, f: Vec<F>| wire::encode(&wire::Msg { ty, f });
    match r.below(14) {
        0 | 1 => enc(90, vec![F::S(r.pick(&[&b"session"[..], b"session", b"x11", b"direct-tcpip", b""]).to_vec()), F::U(r.u32()), F::U(r.edge_u32()), F::U(r.edge_u32())]),
        2 => enc(93, vec![F::U(ch), F::U(r.edge_u32())]),
        3 | 4 => {
            let n = r.below(3000);
            enc(94, vec![F::U(ch), F::S(r.bytes(n))])
        }
        5 => enc(95, vec![F::U(ch), F::U(r.below(3) as u32), F::S(r.bytes(10))]),
        6 => enc(96, vec![F::U(ch)]),
        7 => enc(97, vec![F::U(ch)]),
        8 => {
            let t = *r.pick(wire::SESSION_TYPES);
            let mut v = vec![98];
            v.extend_from_slice(&ch.to_be_bytes());
            put_str(&mut v, t);
            v.push(r.below(2) as u8);
            let n = r.below(40);
            v.extend(r.bytes(n));
            v
        }
        9 => {
            let mut v = vec![98];
            v.extend_from_slice(&ch.to_be_bytes());
            put_str(&mut v, b"exec");
            v.push(1);
            put_str(&mut v, &helper(r.pick(&["cat 0 65536", "io 1 1000 100 3 100 0", "kill 15"])));
            v
        }
        10 => enc(99, vec![F::U(ch)]),
        11 => {
            let mut v = vec![80];
            put_str(&mut v, b"keepalive@openssh.com");
            v.push(1);
            v
        }
        12 => {
            let mut v = vec![r.u8()];
            let n = r.below(40);
            v.extend(r.bytes(n));
            v
        }
        _ => enc(1, vec![F::U(11), F::S(b"bye".to_vec()), F::S(vec![])]),
    }
}

fn c28(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let sc = Scratch::new();
    let exhaust = r.chance(1, 10);
    let sh = shell();
    let bad_shell = std::path::PathBuf::from("/nonexistent/shell");
    let variant = r.below(3);
    let mut d = Daemon::start(&sc, [Some(&sh), Some(&bad_shell), None][variant].map(|v| &**v), exhaust.then_some(40));
    let addr = (d.port, d.pgid);
    let mut log: Vec<String> = Vec::new();
    macro_rules! alive {
        () => {
            if let Some(e) = d.dead() {
                return Err(format!("{}\n{}", e, log.join("\n")));
            }
        };
    }
    if exhaust {
        // More connections than it can have
        let mut held = Vec::new();
        let keep = Tcp::established(addr, r, b"early").ok();
        for _ in 0..r.range(45, 80) {
            if let Ok(mut c) = Tcp::connect(addr, r) {
                c.raw(b"SSH-2.0-x\r\n");
                held.push(c);
            }
        }
        log.push(format!("{} connections at once", held.len()));
        std::thread::sleep(std::time::Duration::from_millis(60));
        if let Some(mut c) = keep {
            start_command(&mut c, 0, &helper("cat 0 65536"));
            let _ = c.flush();
            std::thread::sleep(std::time::Duration::from_millis(20));
            c.abandon(r.chance(1, 2));
        }
        alive!();
        for c in held {
            c.abandon(r.chance(1, 2));
        }
        ctx.count("exhaustions", 1);
        let res = witness(addr, r);
        let dead = d.dying();
        if res.is_err() || dead.is_some() {
            return Err(format!("{}\n{}\n{}", res.err().unwrap_or_default(), dead.unwrap_or_default(), log.join("\n")));
        }
        ctx.count("witnesses", 1);
        return Ok(());
    }
    for _ in 0..r.range(1, 3) {
        let n = r.range(1, 4);
        let whats: Vec<String> = if r.chance(1, 2) {
            (0..n).map(|_| attack(addr, r, &sc)).collect()
        } else {
            let rs: Vec<R> = (0..n).map(|_| r.fork()).collect();
            std::thread::scope(|s| {
                let hs: Vec<_> = rs
                    .into_iter()
                    .map(|mut r| {
                        let sc = &sc;
                        s.spawn(move || attack(addr, &mut r, sc))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| panic!("harness: attacker"))).collect()
            })
        };
        for w in whats {
            ctx.count(&format!("attack: {}", w), 1);
            ctx.count("attacks", 1);
            log.push(w);
        }
        let res = witness(addr, r);
        let dead = d.dying();
        if res.is_err() || dead.is_some() {
            return Err(format!("{}\n{}\n{}", res.err().unwrap_or_default(), dead.unwrap_or_default(), log.join("\n")));
        }
        ctx.count("witnesses", 1);
    }
    alive!();
    ctx.count(["daemons_with_shell", "daemons_with_bad_shell", "daemons_without_shell"][variant], 1);
    ctx.sig(format!("{:?} {}", log, r.u64()).as_bytes());
    ctx.sample(|| log.join("; "));
    Ok(())
}

/// Sockets and pipes of a process, and its children that ended but were not waited for.
fn held(pid: i32) -> (usize, usize) {
    let mut n = 0;
    if let Ok(it) = std::fs::read_dir(format!("/proc/{}/fd", pid)) {
        for e in it.flatten() {
            if let Ok(l) = std::fs::read_link(e.path()) {
                let l = l.to_string_lossy().into_owned();
                n += (l.starts_with("socket:") || l.starts_with("pipe:")) as usize;
            }
        }
    }
    let mut z = 0;
    if let Ok(it) = std::fs::read_dir("/proc") {
        for e in it.flatten() {
            let name = e.file_name();
            let Some(p) = name.to_str().and_then(|s| s.parse::<i32>().ok()) else { continue };
            let Ok(s) = std::fs::read_to_string(format!("/proc/{}/stat", p)) else { continue };
            let Some(i) = s.rfind(')') else { continue };
            let f: Vec<&str> = s[i + 2..].split(' ').collect();
            if f.first() == Some(&"Z") && f.get(1).and_then(|s| s.parse::<i32>().ok()) == Some(pid) {
                z += 1;
            }
        }
    }
    (n, z)
}

/// Clients of all kinds come and go; what the daemon holds returns to what it was (C29).
pub fn leftovers(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let sc = Scratch::new();
    let mut d = Daemon::start(&sc, Some(&shell()), None);
    let addr = (d.port, d.pgid);
    for _ in 0..2 {
        witness(addr, r)?;
    }
    // The connections above have ended once it holds its listening socket and what the runtime needs.
    let mut base = held(d.pgid);
    let t = std::time::Instant::now();
    let mut same = 0;
    while same < 20 && t.elapsed().as_secs() < 20 {
        std::thread::sleep(std::time::Duration::from_millis(10));
        let h = held(d.pgid);
        if h.0 < base.0 {
            base = h;
            same = 0;
        } else {
            same += 1;
        }
    }
    let mut log = Vec::new();
    let mut n = 0;
    for _ in 0..r.range(8, 20) {
        if r.chance(1, 3) {
            witness(addr, r).map_err(|e| format!("{}\n{}", e, log.join("; ")))?;
            log.push("witness".to_string());
        } else {
            log.push(attack(addr, r, &sc));
        }
        n += 1;
    }
    let t = std::time::Instant::now();
    let mut asleep = 0;
    loop {
        let h = held(d.pgid);
        if h.0 <= base.0 && h.1 == 0 {
            break;
        }
        if let Some(e) = d.dead() {
            return Err(format!("{}\n{}", e, log.join("; ")));
        }
        asleep = if group_asleep(d.pgid) { asleep + 1 } else { 0 };
        if t.elapsed().as_secs() > 20 && asleep > 20 || t.elapsed().as_secs() > 90 {
            return Err(format!(
                "after {} connections that ended the daemon holds {} sockets and pipes ({} before) and {} processes that ended: {}",
                n, h.0, base.0, h.1, log.join("; ")
            ));
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    ctx.count("daemons_back_to_what_they_held", 1);
    ctx.count("daemon_connections_released", n);
    ctx.sig(format!("{:?} {}", log, r.u64()).as_bytes());
    Ok(())
}

const ASSUME: &[&str] = &[
    "a daemon all of whose threads and processes sleep for 20 seconds while the client's socket is idle will not do anything more",
    "the daemon's port is replaced by a free one with a preloaded bind(); its behaviour is otherwise that of the built binary",
];

pub const CHECKS: &[Check] = &[
    Check {
        id: "C25",
        run: c25,
        cases: (400, 6000),
        rule: "connections to the real daemon that send forged, replayed and unsupported authentication requests, commands before any login, and genuine logins; \
               distinct = distinct requests",
        evaluations: "refusals",
        needs: &[
            "genuine_logins", "premature_commands", "commands_after_login", "refused: altered signature", "refused: replayed from another session",
            "refused: signature for another session", "refused: signature for another user", "refused: other algorithm", "refused: password",
        ],
        level: "exploration",
        assumptions: ASSUME,
    },
    Check {
        id: "C26",
        run: c26,
        cases: (500, 8000),
        rule: "1-3 connections to the real daemon with 1-4 concurrent sessions each (arguments, output, input, echo, death by signal, programs that cannot be \
               started, shell), by the harness's client or OpenSSH's; output, error, status and input compared byte for byte; distinct = distinct session plans",
        evaluations: "jobs",
        needs: &[
            "jobs: arguments", "jobs: output", "jobs: echo", "jobs: input", "jobs: killed", "jobs: cannot be started", "jobs: shell", "jobs: no shell",
            "jobs: part of the input", "jobs: standard input closed", "concurrent_channels", "outputs_beyond_the_window",
        ],
        level: "exploration",
        assumptions: ASSUME,
    },
    Check {
        id: "C28",
        run: c28,
        cases: (400, 6000),
        rule: "hostile clients of the real daemon at every stage, alone and together, too many connections; after each round the daemon must live and serve a \
               well-behaved client; distinct = distinct sequences of attacks",
        evaluations: "attacks",
        needs: &[
            "witnesses", "attack: garbage", "attack: damaged handshake", "attack: authentication", "attack: random messages", "attack: odd commands",
            "attack: leaves while output comes", "attack: leaves a process", "attack: shell", "attack: damaged packet", "exhaustions",
            "daemons_with_shell", "daemons_with_bad_shell", "daemons_without_shell",
        ],
        level: "exploration",
        assumptions: ASSUME,
    },
];
