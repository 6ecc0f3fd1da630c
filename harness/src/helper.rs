//! The programs that are started through the daemon: this binary under another name.

use crate::rng::{hash_bytes, R};
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};

pub fn pattern(seed: u64, n: usize) -> Vec<u8> {
    R::new(seed).bytes(n)
}

pub fn summary(data: &[u8]) -> String {
    format!("{} {:016x}\n", data.len(), hash_bytes(data))
}

/// Runs if the program was started as helper; does not return then.
pub fn maybe() {
    let args: Vec<Vec<u8>> = std::env::args_os().map(|a| a.into_vec()).collect();
    let name = std::path::Path::new(std::ffi::OsStr::from_bytes(&args[0])).file_name().map(|s| s.as_bytes().to_vec());
    match name.as_deref() {
        Some(b"helper") => {}
        Some(b"helper-shell") => {
            let mut out = std::io::stdout();
            let _ = write!(out, "shell {}\n", args.len());
            let _ = out.flush();
            let _ = std::io::stderr().write_all(b"prompt$ ");
            let n = std::io::copy(&mut std::io::stdin(), &mut out);
            let _ = out.flush();
            std::process::exit(if n.is_ok() { 42 } else { 1 });
        }
        _ => return,
    }
    let num = |i: usize| -> u64 { args.get(i).and_then(|a| std::str::from_utf8(a).ok()).and_then(|s| s.parse().ok()).unwrap_or(0) };
    let raw = |fd: i32, mut data: &[u8], chunk: usize| {
        while !data.is_empty() {
            let n = data.len().min(chunk.max(1));
            let k = unsafe { libc::write(fd, data.as_ptr() as *const _, n) };
            if k < 0 {
                std::process::exit(99);
            }
            data = &data[k as usize..];
        }
    };
    let stdin_all = || {
        let mut v = Vec::new();
        let _ = std::io::stdin().read_to_end(&mut v);
        v
    };
    match args.get(1).map(|a| &a[..]) {
        Some(b"args") => {
            let mut v = Vec::new();
            for a in &args[2..] {
                v.extend_from_slice(&(a.len() as u32).to_be_bytes());
                v.extend_from_slice(a);
            }
            raw(1, &v, 1 << 16);
            std::process::exit(0)
        }
        // io SEED NOUT NERR EXIT CHUNK CLOSE
        Some(b"io") => {
            let (o, e) = (pattern(num(2), num(3) as usize), pattern(num(2) + 1, num(4) as usize));
            let chunk = num(6) as usize;
            let (mut a, mut b) = (0, 0);
            while a < o.len() || b < e.len() {
                let n = chunk.min(o.len() - a);
                raw(1, &o[a..a + n], n);
                a += n;
                if a == o.len() && num(7) & 1 != 0 {
                    unsafe { libc::close(1) };
                }
                let n = chunk.min(e.len() - b);
                raw(2, &e[b..b + n], n);
                b += n;
                if b == e.len() && num(7) & 2 != 0 {
                    unsafe { libc::close(2) };
                }
            }
            unsafe { libc::_exit(num(5) as i32) }
        }
        // cat EXIT
        Some(b"cat") => {
            let mut b = vec![0; num(3).max(1) as usize];
            loop {
                let n = unsafe { libc::read(0, b.as_mut_ptr() as *mut _, b.len()) };
                if n <= 0 {
                    break;
                }
                raw(1, &b[..n as usize], 1 << 16);
            }
            std::process::exit(num(2) as i32)
        }
        // sum EXIT: read everything, then say what it was
        Some(b"sum") => {
            let v = stdin_all();
            raw(2, summary(&v).as_bytes(), 1 << 16);
            std::process::exit(num(2) as i32)
        }
        // head N EXIT: read only N bytes
        Some(b"head") => {
            let mut v = vec![0; num(2) as usize];
            let _ = std::io::Read::read_exact(&mut std::io::stdin(), &mut v);
            raw(1, &v, 1 << 16);
            std::process::exit(num(3) as i32)
        }
        // nostdin N EXIT
        Some(b"nostdin") => {
            unsafe { libc::close(0) };
            raw(1, &pattern(7, num(2) as usize), 4096);
            std::process::exit(num(3) as i32)
        }
        Some(b"kill") => {
            raw(1, b"before", 6);
            unsafe {
                libc::signal(num(2) as i32, libc::SIG_DFL);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                libc::kill(libc::getpid(), num(2) as i32);
            }
            std::process::exit(0)
        }
        Some(b"mark") => {
            let p = std::ffi::OsStr::from_bytes(&args[2]);
            let _ = std::fs::write(p, b"ran");
            std::process::exit(0)
        }
        // endless output
        Some(b"flood") => loop {
            raw(1, &[b'y'; 4096], 4096);
        },
        Some(b"sleep") => loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            // Do not stay for ever if nobody is left.
            if unsafe { libc::getppid() } == 1 {
                std::process::exit(0);
            }
        },
        _ => std::process::exit(98),
    }
}
