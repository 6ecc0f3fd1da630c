//! The scp binary, driven over its standard input and output (C22, C23, C24).

use crate::procs::*;
use crate::rng::R;
use crate::run::{CaseResult, Check, Ctx};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

#[derive(Clone)]
struct Item {
    name: Vec<u8>,
    data: Vec<u8>,
    /// Announced header instead of the right one.
    header: Option<Vec<u8>>,
    term: u8,
    bad: Option<&'static str>,
    /// Writing it fails.
    unwritable: bool,
    /// More is announced than is sent.
    huge: bool,
}

impl Item {
    fn header(&self, r: &mut R) -> Vec<u8> {
        if let Some(h) = &self.header {
            return h.clone();
        }
        let mut h = format!("C{} {} ", r.pick(&["0644", "0600", "0755", "0444", "0777", "0000"]), self.data.len()).into_bytes();
        h.extend_from_slice(&self.name);
        h.push(b'\n');
        h
    }
}

fn size(r: &mut R) -> usize {
    const B: usize = 1 << 15;
    if r.chance(1, 400) {
        return r.range(4 << 20, 20 << 20);
    }
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => B - 1,
        3 => B,
        4 => B + 1,
        5 => 2 * B,
        6 => 8192,
        7 => 8191,
        8 => r.below(200_000),
        9 => r.below(20_000),
        _ => r.below(300),
    }
}

fn content(r: &mut R, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0; n],
        1 => (0..n).map(|i| b"C0644 3 x\n\0"[i % 11]).collect(),
        2 => (0..n).map(|_| *r.pick(&[0u8, b'\n', 0xff, b'C'])).collect(),
        _ => r.bytes(n),
    }
}

/// Names that have to work.
fn good_name(r: &mut R) -> Vec<u8> {
    const SPECIAL: &[&str] = &[
        "a b", " lead", "trail ", "two  spaces", "...", "..a", "a..", ".hidden", "-d", "-t", "~", "~root", "C0644 3 x", "a\\b", "..\\x",
        "naïve", "日本語", "a:b", "$HOME", "`id`", "a;b", "*", "?", "\u{7f}", "tab\tname", "cr\r", "0", "D0755 0 x",
    ];
    match r.below(4) {
        0 => r.pick(SPECIAL).as_bytes().to_vec(),
        1 => {
            let n = *r.pick(&[1, 2, 100, 254, 255]);
            (0..n).map(|_| *r.pick(b"abcdefghijklmnop0123456789_- .")).chain([b'z']).skip(1).collect()
        }
        _ => format!("file{}", r.below(1000)).into_bytes(),
    }
}

fn unique_names(r: &mut R, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    while v.len() < n {
        let c = good_name(r);
        if !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

/// The bytes to send, where acknowledgements are due, and whether the transfer is acceptable.
struct Script {
    bytes: Vec<u8>,
    /// (position, index of the item that is complete there)
    acks: Vec<(usize, Option<usize>)>,
    /// Position at which the sender has to wait (an acknowledgement is due).
    good: bool,
}

fn script(r: &mut R, items: &[Item]) -> Script {
    let mut s = Script { bytes: Vec::new(), acks: vec![(0, None)], good: true };
    for (i, it) in items.iter().enumerate() {
        let h = it.header(r);
        s.bytes.extend_from_slice(&h);
        if it.bad.is_some() {
            s.good = false;
        }
        if s.good {
            s.acks.push((s.bytes.len(), None));
        }
        s.bytes.extend_from_slice(&it.data);
        s.bytes.push(it.term);
        if it.term != 0 || it.unwritable || it.huge {
            s.good = false;
        }
        if s.good {
            s.acks.push((s.bytes.len(), Some(i)));
        }
    }
    s
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Drive {
    /// Everything at once.
    Eager,
    /// Wait for every acknowledgement, like a sender should.
    Lockstep,
    /// Stop at many positions until the receiver rests.
    Probe,
}

/// Feed the receiver. `done(i)` is called when the acknowledgement of item i has been seen.
fn feed(p: &mut Proc, r: &mut R, s: &Script, drive: Drive, mut done: impl FnMut(usize) -> Result<(), String>) -> Result<u64, String> {
    let due = |n: usize| s.acks.iter().filter(|a| a.0 <= n).count();
    let mut sent = 0;
    let mut probes = 0;
    let mut stops: Vec<usize> = match drive {
        Drive::Eager => vec![],
        Drive::Lockstep => s.acks.iter().map(|a| a.0).collect(),
        Drive::Probe => {
            let mut v: Vec<usize> = Vec::new();
            for a in &s.acks {
                v.push(a.0);
                if a.0 > 0 {
                    v.push(a.0 - 1);
                }
            }
            for _ in 0..3 {
                v.push(r.below(s.bytes.len() + 1));
            }
            v
        }
    };
    stops.sort();
    stops.dedup();
    let mut seen = 0;
    let mut look = |p: &Proc, sent: usize| -> Result<(), String> {
        let n = p.out.len().min(s.acks.len());
        if let Some(i) = p.out[..n].iter().position(|c| *c != 0) {
            if s.good {
                return Err(format!("byte {:#x} instead of acknowledgement {}", p.out[i], i));
            }
        }
        if p.out.len() > due(sent) && (s.good || p.out[due(sent)] == 0) {
            return Err(format!(
                "{} acknowledgements although only {} are due after {} of {} bytes have been sent",
                p.out.len(),
                due(sent),
                sent,
                s.bytes.len()
            ));
        }
        while seen < n {
            if let Some(i) = s.acks[seen].1 {
                done(i)?;
            }
            seen += 1;
        }
        Ok(())
    };
    let mut idle = None;
    while sent < s.bytes.len() && !p.broken {
        let stop = stops.iter().copied().find(|x| *x >= sent).unwrap_or(s.bytes.len());
        if stop == sent {
            stops.retain(|x| *x != sent);
            if drive == Drive::Probe {
                p.settle()?;
                probes += 1;
            }
            // Everything that is due must come without sending more.
            let t = std::time::Instant::now();
            let mut rest: Option<std::time::Instant> = None;
            loop {
                p.pull();
                look(p, sent)?;
                if p.out.len() >= due(sent) || p.broken || p.out_eof {
                    break;
                }
                if p.at_rest() {
                    let since = *rest.get_or_insert_with(std::time::Instant::now);
                    if since.elapsed().as_secs() >= 5 {
                        return Err(format!("only {} of {} acknowledgements after {} of {} bytes, then the receiver waits for more", p.out.len(), due(sent), sent, s.bytes.len()));
                    }
                } else {
                    rest = None;
                }
                if t.elapsed().as_secs() > 200 {
                    panic!("harness: receiver neither rests nor acknowledges");
                }
                p.wait_events(false, 1);
            }
            if p.out_eof && p.out.len() < due(sent) {
                break;
            }
            continue;
        }
        let n = match drive {
            Drive::Eager if r.chance(1, 2) => stop - sent,
            _ => (match r.below(5) {
                0 => 1,
                1 => r.range(1, 20),
                2 => r.range(1, 5000),
                _ => stop - sent,
            })
            .min(stop - sent),
        };
        let w = p.push(&s.bytes[sent..sent + n]);
        sent += w;
        p.pull();
        // Acknowledgements seen now are for bytes written by now.
        look(p, sent)?;
        if w == 0 {
            p.wait_events(true, 50);
            if p.at_rest_full() {
                let since = *idle.get_or_insert_with(std::time::Instant::now);
                if since.elapsed().as_secs() >= 60 {
                    panic!("harness: receiver does not read");
                }
            }
        } else {
            idle = None;
        }
    }
    p.pull();
    look(p, sent)?;
    Ok(probes)
}

fn show(items: &[Item]) -> String {
    items
        .iter()
        .map(|i| match &i.header {
            Some(h) => format!("header {:?}", String::from_utf8_lossy(h)),
            None => format!("{:?} {} bytes{}", String::from_utf8_lossy(&i.name), i.data.len(), if i.term != 0 { " (badly terminated)" } else { "" }),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn bad_header(r: &mut R, name: &str) -> (Vec<u8>, &'static str) {
    let (h, w): (String, &'static str) = match r.below(14) {
        0 => (format!("C0644 {}\n", name.replace(' ', "")), "missing field"),
        1 => ("C0644\n".into(), "missing field"),
        2 => ("C\n".into(), "missing field"),
        3 => (format!("C0644 -1 {}\n", name), "invalid size"),
        4 => (format!("C0644 x {}\n", name), "invalid size"),
        5 => (format!("C0644 12x {}\n", name), "invalid size"),
        6 => (format!("C0644 99999999999999999999999999 {}\n", name), "invalid size"),
        7 => (format!("X0644 3 {}\n", name), "unknown letter"),
        8 => (format!("c0644 3 {}\n", name), "unknown letter"),
        9 => (format!("\0C0644 3 {}\n", name), "unknown letter"),
        10 => ("\n".into(), "unknown letter"),
        11 => (format!("C0644  3 {}\n", name), "invalid size"),
        12 => (format!(" C0644 3 {}\n", name), "unknown letter"),
        _ => (format!("C0644 0x10 {}\n", name), "invalid size"),
    };
    (h.into_bytes(), w)
}

fn args(p: &mut std::process::Command, a: &[&[u8]]) {
    for a in a {
        p.arg(os(a));
    }
}

// ---------------------------------------------------------------- C22

fn c22(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let sc = Scratch::new();
    let world = sc.mkdir("world");
    let other = sc.mkdir("world/other");
    sc.write("world/victim", b"untouched");
    sc.write("world/other/victim", b"untouched too");
    let target = sc.0.join("world/dir/target");
    let exists = r.chance(2, 3);
    let mut inside: BTreeMap<Vec<u8>, Node> = BTreeMap::new();
    sc.mkdir("world/dir");
    sc.write("world/dir/victim", b"untouched three");
    if exists {
        sc.mkdir("world/dir/target");
        sc.mkdir("world/dir/target/sub");
        sc.write("world/dir/target/sub/victim", b"untouched four");
        sc.write("world/dir/target/old", b"old contents that are rather long");
        inside = snapshot(&target);
    }
    let before = snapshot(&world);
    // Names
    let t = target.as_os_str().as_bytes();
    let abs = |s: &str| -> Vec<u8> { [sc.0.as_os_str().as_bytes(), b"/world/", s.as_bytes()].concat() };
    let n = r.range(1, 4);
    let mut items = Vec::new();
    let at = r.below(n);
    let hostile = r.chance(7, 8);
    for (i, name) in unique_names(r, n).into_iter().enumerate() {
        let mut it = Item { name, data: { let n = size(r).min(40_000); content(r, n) }, header: None, term: 0, bad: None, unwritable: false, huge: false };
        if hostile && i == at {
            it.bad = Some("name");
            let base: Vec<u8> = match r.below(4) {
                0 => b"victim".to_vec(),
                1 => b"old".to_vec(),
                2 => good_name(r),
                _ => b"new".to_vec(),
            };
            it.name = match r.below(26) {
                0 => vec![],
                1 => b".".to_vec(),
                2 => b"..".to_vec(),
                3 => b"/".to_vec(),
                4 => [b"../", &base[..]].concat(),
                5 => [b"../../", &base[..]].concat(),
                6 => [b"../other/", &base[..]].concat(),
                7 => [b"./", &base[..]].concat(),
                8 => [b"sub/", &base[..]].concat(),
                9 => [b"sub/../", &base[..]].concat(),
                10 => [&base[..], b"/"].concat(),
                11 => [b"sub/../../", &base[..]].concat(),
                12 => abs("victim"),
                13 => abs(&format!("n{}", r.below(100))),
                14 => [t, b"/", &base[..]].concat(),
                15 => [&base[..], b"/.."].concat(),
                16 => b"../".to_vec(),
                17 => [b"//", &base[..]].concat(),
                18 => [&base[..], b"/../../victim"].concat(),
                19 => b"sub".to_vec(),
                20 => b"nul\0name".to_vec(),
                21 => vec![b'x'; 300],
                22 => [&base[..], b"/x"].concat(),
                23 => [b"..//../", &base[..]].concat(),
                24 => {
                    // Any mixture of the parts that matter.
                    let mut v = Vec::new();
                    for _ in 0..r.range(2, 5) {
                        v.extend_from_slice(*r.pick(&[&b".."[..], b"/", b".", b"sub", b"victim", b" ", b"\\"]));
                    }
                    if !v.contains(&b'/') {
                        v.push(b'/');
                    }
                    v
                }
                _ => [b"\xff\xfe../", &base[..]].concat(),
            };
            if it.name == b"sub" && !exists {
                it.name = b"..".to_vec();
            }
        }
        items.push(it);
    }
    // The same good name twice is fine too.
    if !hostile && r.chance(1, 3) {
        let mut again = items[0].clone();
        again.data = content(r, 50);
        items.push(again);
    }
    let s = script(r, &items);
    let mut cmd = command("nora_scp", &world);
    let rel: Vec<u8> = if r.chance(1, 2) { b"dir/target".to_vec() } else { t.to_vec() };
    match r.below(3) {
        0 => args(&mut cmd, &[b"-t", b"-d", &rel]),
        1 => args(&mut cmd, &[b"-d", b"-t", &rel]),
        _ => args(&mut cmd, &[b"-t", &rel, b"-d"]),
    }
    let drive = *r.pick(&[Drive::Eager, Drive::Eager, Drive::Lockstep]);
    let mut p = Proc::spawn(cmd);
    let fed = feed(&mut p, r, &s, drive, |_| Ok(()));
    p.close_stdin();
    let status = p.finish();
    let after = snapshot(&world);
    let what = format!("files announced: {}; target {}", show(&items), if exists { "exists" } else { "does not exist" });
    // Outside nothing changes, apart from the target itself.
    let is_in = |k: &[u8]| k.starts_with(b"dir/target/") || k == b"dir/target";
    let out = |m: &BTreeMap<Vec<u8>, Node>| m.iter().filter(|(k, _)| !is_in(k)).map(|(k, v)| (k.clone(), v.clone())).collect::<BTreeMap<_, _>>();
    let (b, a) = (out(&before), out(&after));
    if a != b {
        let d: Vec<_> = a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|(k, _)| k).chain(b.keys().filter(|k| !a.contains_key(*k))).map(|k| String::from_utf8_lossy(k).into_owned()).collect();
        return Err(format!("changed outside the target directory: {:?}\n{}", d, what));
    }
    let _ = other;
    // Inside: exactly the files that were announced under acceptable names.
    for it in items.iter() {
        if it.bad.is_some() {
            break;
        }
        inside.insert(it.name.clone(), Node::File(it.data.clone()));
    }
    let mut now = BTreeMap::new();
    for (k, v) in &after {
        if let Some(k) = k.strip_prefix(&b"dir/target/"[..]) {
            now.insert(k.to_vec(), v.clone());
        }
    }
    if now != inside {
        for (k, v) in &now {
            if inside.get(k) != Some(v) {
                return Err(format!("in the target directory {:?} is not as it should be (unexpected or changed)\n{}", String::from_utf8_lossy(k), what));
            }
        }
        for k in inside.keys() {
            if !now.contains_key(k) {
                return Err(format!("{:?} is missing in the target directory\n{}", String::from_utf8_lossy(k), what));
            }
        }
    }
    fed.map_err(|e| format!("{}\n{}", e, what))?;
    match status {
        None => return Err(format!("the receiver does not end\n{}", what)),
        Some(x) if hostile && x.success() => return Err(format!("exits successfully\n{}", what)),
        Some(x) if !hostile && !x.success() => return Err(format!("exits with {}\n{}", x, what)),
        _ => {}
    }
    ctx.count(if hostile { "hostile_names_refused" } else { "plain_transfers" }, 1);
    ctx.count("entries_compared", after.len() as u64);
    let sig: Vec<u8> = items.iter().flat_map(|i| i.name.iter().copied().chain([0])).collect();
    ctx.sig(&sig);
    ctx.sample(|| what);
    Ok(())
}

// ---------------------------------------------------------------- C23

fn c23(ctx: &mut Ctx) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let sc = Scratch::new();
    let n = match r.below(8) {
        _ if r.chance(1, 200) => r.range(100, 400),
        0 => 0,
        1..=4 => 1,
        _ => r.range(2, 5),
    };
    let dir_mode = r.chance(1, 2) || n == 0;
    let mut items: Vec<Item> = Vec::new();
    for name in unique_names(r, n) {
        let k = if n < 100 { size(r) } else { size(r).min(300) };
        items.push(Item { name, data: content(r, k), header: None, term: 0, bad: None, unwritable: false, huge: false });
    }
    if n >= 100 {
        ctx.count("long_transfers", 1);
    }
    let kind = r.below(13);
    let mut truncate = None;
    let mut obstacle = None;
    let mut limit = None;
    match kind {
        0 if n > 0 => {
            let i = r.below(n);
            let (h, w) = bad_header(r, "name");
            items[i].header = Some(h);
            items[i].bad = Some(w);
            ctx.count(&format!("malformed: {}", w), 1);
        }
        1 if n > 0 => {
            let i = r.below(n);
            items[i].term = *r.pick(&[1, 2, b'C', b'\n', 0xff]);
            ctx.count("wrongly_terminated", 1);
        }
        2 | 3 if n > 0 => truncate = Some(()),
        7 if n > 0 => {
            // Most of the file is missing.
            let i = r.below(n);
            let len = items[i].data.len() as u64 + *r.pick(&[1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 32, 3 << 32, 1 << 40]);
            items[i].header = Some([format!("C0644 {} ", len).as_bytes(), &items[i].name, b"\n"].concat());
            items[i].huge = true;
            // Whatever follows belongs to it.
            items.truncate(i + 1);
            ctx.count("huge_files_cut_short", 1);
        }
        4 if n > 0 => {
            let i = r.below(n);
            items[i].bad = Some("cannot be created");
            obstacle = Some(i);
            ctx.count("files_that_cannot_be_created", 1);
        }
        5 if n > 0 => {
            // Files cannot become larger than this.
            let l = items[r.below(n)].data.len();
            let l = if r.chance(1, 2) { l.saturating_sub(1) } else { r.below(l + 1) };
            if let Some(it) = items.iter_mut().find(|i| i.data.len() > l) {
                it.unwritable = true;
                limit = Some(l as u64);
                ctx.count("files_that_cannot_be_written", 1);
            }
        }
        6 if n > 0 && !dir_mode => {
            let i = r.below(n);
            if !items[i].data.is_empty() {
                items[i].unwritable = true;
                ctx.count("files_that_cannot_be_written", 1);
            }
        }
        _ => {}
    }
    let target = sc.0.join("target");
    let mut paths: Vec<PathBuf> = Vec::new();
    let n = items.len();
    let mut cmd = command("nora_scp", &sc.0);
    if dir_mode {
        if r.chance(1, 2) {
            sc.mkdir("target");
            for it in &items {
                if r.chance(1, 3) {
                    let k = r.below(100_000);
                    sc.write(Path::new("target").join(os(&it.name)), &r.bytes(k));
                }
            }
        }
        if let Some(i) = obstacle {
            match r.below(3) {
                0 => items[i].name = vec![b'n'; 256],
                _ => {
                    sc.mkdir("target");
                    let p = Path::new("target").join(os(&items[i].name));
                    let _ = std::fs::remove_file(sc.0.join(&p));
                    std::fs::create_dir(sc.0.join(&p)).expect("harness");
                    own(&sc.0.join(&p));
                }
            }
        }
        args(&mut cmd, &[b"-t", b"-d", b"target"]);
        paths = items.iter().map(|i| target.join(os(&i.name))).collect();
    } else {
        args(&mut cmd, &[b"-t"]);
        for i in 0..n {
            let rel = match r.below(4) {
                _ if items[i].unwritable && limit.is_none() => "/dev/full".into(),
                _ if obstacle == Some(i) => match r.below(3) {
                    0 => {
                        sc.mkdir("in the way");
                        "in the way".into()
                    }
                    1 => {
                        sc.write("obstacle", b"x");
                        "obstacle/p".into()
                    }
                    _ => "n".repeat(256),
                },
                0 => format!("p{}", i),
                1 => format!("./new/deep dir/p{}", i),
                2 => format!("x{}/../p{}", i, i),
                _ => format!("{}/abs{}/p", sc.0.display(), i),
            };
            cmd.arg(&rel);
            if r.chance(1, 3) && rel.starts_with('p') {
                let k = r.below(100_000);
                sc.write(&rel, &r.bytes(k));
            }
            paths.push(sc.0.join(rel));
        }
    }
    if let Some(l) = limit {
        use std::os::unix::process::CommandExt;
        unsafe {
            cmd.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: l, rlim_max: l };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                Ok(())
            });
        }
    }
    let mut s = script(r, &items);
    let mut full_files = s.acks.iter().filter_map(|a| a.1).collect::<Vec<_>>();
    let mut ok = s.good;
    if truncate.is_some() {
        let mut cut = match r.below(4) {
            // Next to the interesting places
            0 => {
                let a = r.pick(&s.acks).0;
                (a + r.below(4)).saturating_sub(2)
            }
            _ => r.below(s.bytes.len()),
        };
        cut = cut.min(s.bytes.len() - 1);
        // Between two files of a directory this is simply the end.
        ok = dir_mode && (cut == 0 || s.acks.iter().any(|a| a.0 == cut && a.1.is_some()));
        s.bytes.truncate(cut);
        s.acks.retain(|a| a.0 <= cut);
        full_files = s.acks.iter().filter_map(|a| a.1).collect();
        ctx.count(if ok { "ends_between_files" } else { "truncations" }, 1);
    }
    let s = s;
    let drive = *r.pick(&[Drive::Eager, Drive::Lockstep, Drive::Probe]);
    let what = format!("{:?}, {} mode, {} bytes sent, files: {}", drive, if dir_mode { "directory" } else { "path" }, s.bytes.len(), show(&items));
    let mut p = Proc::spawn(cmd);
    let probing = drive != Drive::Eager;
    let mut complete = 0;
    let probes = feed(&mut p, r, &s, drive, |i| {
        complete += 1;
        if probing && std::fs::read(&paths[i]).ok().as_ref() != Some(&items[i].data) {
            return Err(format!("file {} acknowledged but its contents are not there", i));
        }
        Ok(())
    })
    .map_err(|e| format!("{}\n{}", e, what))?;
    ctx.count("probes_at_rest", probes);
    let eof = dir_mode || !ok || r.chance(1, 2);
    if eof {
        if truncate.is_some() && drive == Drive::Probe {
            p.settle()?;
        }
        p.close_stdin();
    }
    let status = p.finish().ok_or_else(|| format!("the receiver does not end\n{}", what))?;
    // All acknowledgements, and only those.
    let zeros = p.out.iter().take_while(|c| **c == 0).count();
    if zeros != s.acks.len() || (p.out.len() > zeros && ok) {
        return Err(format!("{} acknowledgements and {} other bytes instead of {} acknowledgements\n{}", zeros, p.out.len() - zeros, s.acks.len(), what));
    }
    if status.success() != ok {
        return Err(format!("{} after {} transfer\n{}", status, if ok { "a correct" } else { "an incomplete or malformed" }, what));
    }
    // A correct file may be overwritten by a later one with the same name only.
    for i in &full_files {
        match std::fs::read(&paths[*i]) {
            Ok(d) if d == items[*i].data => {}
            Ok(d) => return Err(format!("file {} differs: {}\n{}", i, crate::client::diff(&items[*i].data, &d), what)),
            Err(e) => return Err(format!("file {}: {}\n{}", i, e, what)),
        }
        ctx.count("files_compared", 1);
        ctx.count("file_bytes", items[*i].data.len() as u64);
    }
    if ok && dir_mode {
        let names: Vec<_> = snapshot(&target).into_keys().collect();
        if names.iter().any(|k| !items.iter().any(|i| i.name == *k)) {
            return Err(format!("unexpected file among {:?}\n{}", names, what));
        }
    }
    ctx.count("acknowledgements", s.acks.len() as u64);
    ctx.count(if ok { "accepted_transfers" } else { "refused_transfers" }, 1);
    ctx.count(&format!("drive: {:?}", drive), 1);
    let mut sig = vec![drive as u8, dir_mode as u8];
    sig.extend_from_slice(&s.bytes);
    ctx.sig(&sig);
    ctx.sample(|| what);
    Ok(())
}

// ---------------------------------------------------------------- C24

/// A file that is larger than what is transferred of it, or than it is when it is read.
fn c24_part(ctx: &mut Ctx, shrink: bool) -> CaseResult {
    let mut r = ctx.r.fork();
    let r = &mut r;
    let sc = Scratch::new();
    let len: u64 = if shrink {
        r.range(400_000, 3_000_000) as u64
    } else {
        *r.pick(&[1u64 << 31, 1 << 32, 1 << 32, 5 << 32]) + r.below(100_000) as u64
    };
    let head = r.bytes(300_000);
    let path = sc.write("file", &head);
    let f = std::fs::OpenOptions::new().write(true).open(&path).expect("harness: open");
    f.set_len(len).expect("harness: set_len");
    let what = format!("file of {} bytes{}", len, if shrink { " that shrinks" } else { "" });
    let mut cmd = command("nora_scp", &sc.0);
    args(&mut cmd, &[b"-f", b"file"]);
    let mut p = Proc::spawn_socket(cmd);
    p.push(b"\0");
    let want = format!(" {} file\n", len).into_bytes();
    let t = std::time::Instant::now();
    while p.out.len() < 5 + want.len() && !p.out_eof {
        p.pull();
        p.wait_events(false, 1);
        if t.elapsed().as_secs() > 200 {
            return Err(format!("no header\n{}", what));
        }
    }
    if p.out.len() < 5 || p.out[0] != b'C' || p.out[5..] != want[..] {
        return Err(format!("header {:?} instead of {:?}\n{}", String::from_utf8_lossy(&p.out), String::from_utf8_lossy(&want), what));
    }
    p.out.clear();
    p.push(b"\0");
    let expected = |i: usize| head.get(i).copied().unwrap_or(0);
    if shrink {
        // It cannot send everything before somebody reads.
        let t = std::time::Instant::now();
        let mut asleep = 0;
        while asleep < 5 && t.elapsed().as_secs() < 100 {
            asleep = if state(p.child.id() as i32) == Some('S') { asleep + 1 } else { 0 };
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        // Sockets hold about 200 KB; a sender that has read everything in advance is fine, too.
        let to = r.below(1000) as u64;
        f.set_len(to).expect("harness: set_len");
        // Acknowledges whatever comes.
        p.push(&[0; 3]);
        let status = p.finish().ok_or_else(|| format!("the sender does not end\n{}", what))?;
        let all = p.out.len() as u64 == len + 1 && p.out[len as usize] == 0 && (0..len as usize).all(|i| p.out[i] == expected(i));
        if status.success() && !all {
            return Err(format!("success although only {} of {} bytes could be sent\n{}", p.out.len(), len, what));
        }
        ctx.count("files_that_shrink", 1);
    } else {
        let n = r.below(1 << 20);
        let t = std::time::Instant::now();
        while p.out.len() < n && !p.out_eof {
            p.wait_events(false, 5);
            if let Some(o) = &mut p.stdout {
                use std::io::Read;
                let mut b = vec![0; 1 << 16];
                if let Ok(k) = o.read(&mut b) {
                    p.out.extend_from_slice(&b[..k]);
                    p.out_eof |= k == 0;
                }
            }
            if t.elapsed().as_secs() > 200 {
                return Err(format!("only {} bytes\n{}", p.out.len(), what));
            }
        }
        if let Some(i) = (0..p.out.len()).find(|i| p.out[*i] != expected(*i)) {
            return Err(format!("byte {} differs\n{}", i, what));
        }
        if p.out_eof {
            return Err(format!("ends after {} bytes\n{}", p.out.len(), what));
        }
        p.hang_up();
        p.push(&[0; 3]);
        let status = p.finish().ok_or_else(|| format!("the sender does not end\n{}", what))?;
        if status.success() {
            return Err(format!("success although the receiver left\n{}", what));
        }
        ctx.count("huge_files", 1);
        ctx.count("file_bytes", p.out.len() as u64);
    }
    ctx.sig(format!("{}{}", what, p.out.len()).as_bytes());
    Ok(())
}

fn c24(ctx: &mut Ctx) -> CaseResult {
    match ctx.case % 60 {
        5 => return c24_part(ctx, false),
        6 => return c24_part(ctx, true),
        _ => {}
    }
    let mut r = ctx.r.fork();
    let r = &mut r;
    let sc = Scratch::new();
    sc.mkdir("from");
    sc.mkdir("from/a dir");
    let n = match r.below(8) {
        _ if r.chance(1, 200) => r.range(100, 400),
        0 => 0,
        1..=4 => 1,
        _ => r.range(2, 5),
    };
    let mut files: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    let mut cmd = command("nora_scp", &sc.0);
    args(&mut cmd, &[b"-f"]);
    let missing = (n > 0 && r.chance(1, 8)).then(|| r.below(n));
    for (i, name) in unique_names(r, n).into_iter().enumerate() {
        let k = if n < 100 { size(r) } else { size(r).min(300) };
        let data = content(r, k);
        let dir = *r.pick(&["from", "from/a dir"]);
        let path = Path::new(dir).join(os(&name));
        if missing == Some(i) {
            if r.chance(1, 2) {
                std::fs::create_dir_all(sc.0.join(&path).join("x")).expect("harness");
                cmd.arg(path.join("x").join("none"));
            } else {
                cmd.arg(path);
            }
        } else {
            if r.chance(1, 8) {
                let real = sc.write(format!("from/target of {}", i), &data);
                std::os::unix::fs::symlink(real, sc.0.join(&path)).expect("harness: symlink");
                ctx.count("symbolic_links", 1);
            } else {
                sc.write(&path, &data);
            }
            if r.chance(1, 3) {
                cmd.arg(sc.0.join(&path));
            } else {
                cmd.arg(&path);
            }
        }
        files.push((name, data));
    }
    let what = format!(
        "files: {}{}",
        files.iter().map(|(n, d)| format!("{:?} {} bytes", String::from_utf8_lossy(n), d.len())).collect::<Vec<_>>().join(", "),
        missing.map_or(String::new(), |i| format!("; file {} does not exist", i))
    );
    if n >= 100 {
        ctx.count("long_transfers", 1);
    }
    if missing.is_none() && n > 0 && r.chance(1, 4) {
        return loopback(ctx, r, &sc, cmd, &files, what);
    }
    // Which acknowledgement is withheld or negative.
    let total = 1 + 2 * files.len();
    let refuse = if missing.is_none() && r.chance(1, 3) { Some((r.below(total), r.below(5))) } else { None };
    // The peer leaves instead, which the sender notices unless it has nothing left to send.
    let refuse = refuse.map(|(k, how)| (k, if how == 4 && k + 1 == total { 0 } else { how }));
    let probe = r.chance(1, 3);
    let mut p = if matches!(refuse, Some((_, 4))) { Proc::spawn_socket(cmd) } else { Proc::spawn(cmd) };
    let mut pos = 0;
    let mut given = 0;
    // Reads exactly n bytes, or to the end.
    let take = |p: &mut Proc, pos: &mut usize, n: usize| -> Result<Option<Vec<u8>>, String> {
        let t = std::time::Instant::now();
        let mut rest: Option<std::time::Instant> = None;
        loop {
            p.pull();
            if p.out.len() >= *pos + n {
                let v = p.out[*pos..*pos + n].to_vec();
                *pos += n;
                return Ok(Some(v));
            }
            if p.out_eof {
                return Ok(None);
            }
            if p.at_rest() {
                let since = *rest.get_or_insert_with(std::time::Instant::now);
                if since.elapsed().as_secs() >= 5 {
                    return Err(format!("the sender waits although it has been acknowledged: {} bytes came", p.out.len()));
                }
            } else {
                rest = None;
            }
            if t.elapsed().as_secs() > 200 {
                panic!("harness: sender neither rests nor sends");
            }
            p.wait_events(false, 1);
        }
    };
    // Returns false if the sender has to give up now.
    let mut ack = |p: &mut Proc, pos: usize, r: &mut R, ctx: &mut Ctx| -> Result<bool, String> {
        if probe {
            p.settle()?;
            ctx.count("probes_at_rest", 1);
        }
        if p.out.len() > pos {
            return Err(format!("{} bytes before acknowledgement {}: {:?}", p.out.len() - pos, given, String::from_utf8_lossy(&p.out[pos..p.out.len().min(pos + 60)])));
        }
        let i = given;
        given += 1;
        match refuse {
            Some((k, how)) if k == i => {
                match how {
                    0 => p.close_stdin(),
                    1 => {
                        p.push(b"\x01");
                    }
                    2 => {
                        p.push(b"\x02no\n");
                    }
                    3 => {
                        p.push(&[r.range(1, 255) as u8]);
                    }
                    _ => {
                        p.hang_up();
                        p.push(&[0; 20]);
                    }
                }
                Ok(false)
            }
            _ => {
                p.push(b"\0");
                Ok(true)
            }
        }
    };
    let mut live = ack(&mut p, pos, r, ctx).map_err(|e| format!("{}\n{}", e, what))?;
    let mut compared = 0;
    'files: for (i, (name, data)) in files.iter().enumerate() {
        if !live || missing == Some(i) {
            break;
        }
        let want = [format!(" {} ", data.len()).as_bytes(), name, b"\n"].concat();
        let mut expect = |p: &mut Proc, n: usize| -> Result<Vec<u8>, String> {
            match take(p, &mut pos, n) {
                Ok(Some(v)) => Ok(v),
                Ok(None) => Err(format!("ends in the middle of file {}", i)),
                Err(e) => Err(e),
            }
            .map_err(|e| format!("{}\n{}", e, what))
        };
        let mode = expect(&mut p, 5)?;
        if mode[0] != b'C' || mode[1..].iter().any(|c| !(b'0'..=b'7').contains(c)) {
            return Err(format!("header starts with {:?}\n{}", String::from_utf8_lossy(&mode), what));
        }
        let h = expect(&mut p, want.len())?;
        if h != want {
            return Err(format!("header {:?} instead of {:?}\n{}", String::from_utf8_lossy(&h), String::from_utf8_lossy(&want), what));
        }
        live = ack(&mut p, pos, r, ctx).map_err(|e| format!("after the header: {}\n{}", e, what))?;
        if !live {
            break 'files;
        }
        let mut expect = |p: &mut Proc, n: usize| -> Result<Vec<u8>, String> {
            match take(p, &mut pos, n) {
                Ok(Some(v)) => Ok(v),
                Ok(None) => Err(format!("ends in the middle of file {}", i)),
                Err(e) => Err(e),
            }
            .map_err(|e| format!("{}\n{}", e, what))
        };
        let d = expect(&mut p, data.len())?;
        if d != *data {
            return Err(format!("contents of file {} differ: {}\n{}", i, crate::client::diff(data, &d), what));
        }
        let z = expect(&mut p, 1)?;
        if z != [0] {
            return Err(format!("byte {:#x} after the contents\n{}", z[0], what));
        }
        compared += 1;
        ctx.count("files_compared", 1);
        ctx.count("file_bytes", data.len() as u64);
        live = ack(&mut p, pos, r, ctx).map_err(|e| format!("after file {}: {}\n{}", i, e, what))?;
    }
    if r.chance(1, 2) && missing.is_none() && live {
        // It must end without being told to.
    } else {
        p.close_stdin();
    }
    let status = p.finish().ok_or_else(|| format!("the sender does not end\n{}", what))?;
    if p.out.len() > pos {
        return Err(format!("{} bytes too many: {:?}\n{}", p.out.len() - pos, String::from_utf8_lossy(&p.out[pos..p.out.len().min(pos + 60)]), what));
    }
    let ok = live && missing.is_none();
    if status.success() != ok {
        return Err(format!("{} (acknowledged {}, refused {:?})\n{}", status, given, refuse, what));
    }
    if ok && compared != files.len() {
        return Err(format!("only {} files sent\n{}", compared, what));
    }
    ctx.count("transfers", 1);
    if let Some((_, how)) = refuse {
        ctx.count(match how { 0 => "missing_acknowledgements", 4 => "vanished_receivers", _ => "negative_acknowledgements" }, 1);
    }
    if missing.is_some() {
        ctx.count("missing_files", 1);
    }
    let mut sig = format!("{:?}{:?}", refuse, missing).into_bytes();
    sig.extend_from_slice(&p.out);
    ctx.sig(&sig);
    ctx.sample(|| what);
    Ok(())
}

/// Sender and receiver connected to each other.
fn loopback(ctx: &mut Ctx, r: &mut R, sc: &Scratch, cmd: std::process::Command, files: &[(Vec<u8>, Vec<u8>)], what: String) -> CaseResult {
    let mut rc = command("nora_scp", &sc.0);
    args(&mut rc, &[b"-t", b"-d", b"to"]);
    let mut a = Proc::spawn(cmd);
    let mut b = Proc::spawn(rc);
    let (mut ab, mut ba) = (0, 0);
    let small = r.chance(1, 3);
    let t = std::time::Instant::now();
    let mut rest: Option<std::time::Instant> = None;
    loop {
        let mut moved = a.pull() | b.pull();
        let n = |r: &mut R, left: usize| if small { left.min(r.range(1, 3000)) } else { left };
        let k = n(r, a.out.len() - ab);
        if k > 0 {
            let w = b.push(&a.out[ab..ab + k]);
            ab += w;
            moved |= w > 0;
        }
        let k = n(r, b.out.len() - ba);
        if k > 0 {
            let w = a.push(&b.out[ba..ba + k]);
            ba += w;
            moved |= w > 0;
        }
        if a.out_eof && ab == a.out.len() {
            b.close_stdin();
        }
        if a.out_eof && b.out_eof {
            break;
        }
        if !moved && a.at_rest() && b.at_rest() {
            let since = *rest.get_or_insert_with(std::time::Instant::now);
            if since.elapsed().as_secs() >= 5 {
                return Err(format!("sender and receiver wait for each other after {} and {} bytes\n{}", a.out.len(), b.out.len(), what));
            }
        } else {
            rest = None;
        }
        if t.elapsed().as_secs() > 200 {
            panic!("harness: loopback does not end");
        }
        if !moved {
            a.wait_events(false, 1);
        }
    }
    let (x, y) = (a.finish(), b.finish());
    match (x, y) {
        (Some(x), Some(y)) if x.success() && y.success() => {}
        _ => return Err(format!("sender {:?}, receiver {:?}\n{}", x, y, what)),
    }
    let want: BTreeMap<Vec<u8>, Node> = files.iter().map(|(n, d)| (n.clone(), Node::File(d.clone()))).collect();
    if snapshot(&sc.0.join("to")) != want {
        return Err(format!("the copies differ\n{}", what));
    }
    ctx.count("loopbacks", 1);
    ctx.count("files_compared", files.len() as u64);
    let mut sig = vec![1];
    sig.extend_from_slice(&a.out);
    ctx.sig(&sig);
    Ok(())
}

const ASSUME: &[&str] = &[
    "a process that sleeps for five seconds with all its input read and all its output collected waits for more input",
    "the binary runs as an unprivileged user in a scratch directory; the kernel's pipes and file system are trusted",
];

pub const CHECKS: &[Check] = &[
    Check {
        id: "C22",
        run: c22,
        cases: (6000, 80_000),
        rule: "transfers of 1-4 files into a directory, one of them announced under a hostile name (separators, traversal, absolute, empty, dots, NUL, \
               too long, a directory's, not UTF-8) or none; everything around the target is compared before and after; distinct = distinct lists of names",
        evaluations: "entries_compared",
        needs: &["hostile_names_refused", "plain_transfers"],
        level: "exploration",
        assumptions: ASSUME,
    },
    Check {
        id: "C23",
        run: c23,
        cases: (6000, 80_000),
        rule: "transfers of 0-5 files with sizes around the buffer sizes, sent at once, in step or stopping one byte before each acknowledgement; truncated, \
               malformed and badly terminated ones; files that cannot be created or written; files, acknowledgements over time and exit status are judged; distinct = distinct bytes sent and ways of sending",
        evaluations: "files_compared",
        needs: &["truncations", "wrongly_terminated", "accepted_transfers", "refused_transfers", "probes_at_rest", "malformed: missing field", "malformed: invalid size", "malformed: unknown letter", "files_that_cannot_be_created", "files_that_cannot_be_written", "huge_files_cut_short", "long_transfers"],
        level: "exploration",
        assumptions: ASSUME,
    },
    Check {
        id: "C24",
        run: c24,
        cases: (6000, 80_000),
        rule: "lists of 0-5 files sent to a protocol automaton that gives, withholds or refuses each acknowledgement, or to the real receiver; distinct = distinct \
               bytes received and refusals",
        evaluations: "files_compared",
        needs: &["loopbacks", "negative_acknowledgements", "missing_acknowledgements", "vanished_receivers", "missing_files", "probes_at_rest", "transfers", "symbolic_links", "huge_files", "files_that_shrink", "long_transfers"],
        level: "exploration",
        assumptions: ASSUME,
    },
];
