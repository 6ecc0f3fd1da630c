//! Running the real binaries as an unprivileged user inside a scratch directory.

use std::ffi::OsStr;
use std::fs;
use std::io::{self, Read, Write};
use std::os::fd::{AsRawFd, RawFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const NOBODY: u32 = 65534;

static ROOT: OnceLock<PathBuf> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);

/// Directory of this run; holds copies of the binaries and the scratch directories of the cases.
pub fn root() -> &'static Path {
    ROOT.get_or_init(|| {
        let dir = PathBuf::from(format!("/tmp/vh-{}-{:x}", std::process::id(), std::time::UNIX_EPOCH.elapsed().map_or(0, |d| d.as_nanos() as u64)));
        fs::create_dir(&dir).expect("harness: scratch directory");
        fs::set_permissions(&dir, fs::Permissions::from_mode(0o755)).expect("harness: chmod");
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        for (from, to) in [
            (format!("{}/target/repo/debug/nora_scp", verif), "nora_scp"),
            (format!("{}/target/repo/debug/nora_sshd", verif), "nora_sshd"),
            (format!("{}/target/shim.so", verif), "shim.so"),
            ("/proc/self/exe".to_string(), "helper"),
        ] {
            let to = dir.join(to);
            fs::copy(&from, &to).unwrap_or_else(|e| panic!("harness: cannot copy {}: {}", from, e));
            fs::set_permissions(&to, fs::Permissions::from_mode(0o755)).expect("harness: chmod");
        }
        fs::hard_link(dir.join("helper"), dir.join("helper-shell")).expect("harness: link");
        dir
    })
}

/// Remove everything again. Called at the end of the run.
pub fn cleanup() {
    if let Some(d) = ROOT.get() {
        let _ = fs::remove_dir_all(d);
    }
}

/// A directory that belongs to the unprivileged user.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        let d = root().join(format!("s{}", NEXT.fetch_add(1, SeqCst)));
        fs::create_dir(&d).expect("harness: scratch");
        own(&d);
        Scratch(d)
    }
    pub fn mkdir(&self, name: &str) -> PathBuf {
        let p = self.0.join(name);
        fs::create_dir_all(&p).expect("harness: mkdir");
        own(&p);
        p
    }
    pub fn write(&self, name: impl AsRef<Path>, data: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        fs::write(&p, data).expect("harness: write");
        own(&p);
        p
    }
}

pub fn own(p: &Path) {
    std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY)).expect("harness: chown");
}

impl Drop for Scratch {
    fn drop(&mut self) {
        // Everything in it belongs to this case.
        let _ = fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    Other,
}

/// Everything below a directory.
pub fn snapshot(dir: &Path) -> std::collections::BTreeMap<Vec<u8>, Node> {
    fn walk(dir: &Path, prefix: &[u8], out: &mut std::collections::BTreeMap<Vec<u8>, Node>) {
        let Ok(it) = fs::read_dir(dir) else { return };
        for e in it.flatten() {
            let mut name = prefix.to_vec();
            name.extend_from_slice(e.file_name().as_bytes());
            let ty = e.file_type().expect("harness: file type");
            if ty.is_dir() {
                out.insert(name.clone(), Node::Dir);
                name.push(b'/');
                walk(&e.path(), &name, out);
            } else if ty.is_file() {
                out.insert(name, Node::File(fs::read(e.path()).unwrap_or_default()));
            } else {
                out.insert(name, Node::Other);
            }
        }
    }
    let mut m = std::collections::BTreeMap::new();
    walk(dir, b"", &mut m);
    m
}

pub fn os(b: &[u8]) -> &OsStr {
    OsStr::from_bytes(b)
}

/// Thousands of times what the largest transfer takes.
const CPU_SECONDS: u64 = 30;
/// More output than any transfer has.
const MAX_OUT: usize = 1 << 30;

/// A process with its own group, killed when dropped.
pub struct Proc {
    pub child: Child,
    pub stdin: Option<fs::File>,
    pub stdout: Option<fs::File>,
    /// Everything it wrote so far.
    pub out: Vec<u8>,
    pub out_eof: bool,
    /// Writing failed because it does not read any more.
    pub broken: bool,
}

fn nonblocking(fd: RawFd) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK);
    }
}

pub fn command(bin: &str, cwd: &Path) -> Command {
    let mut c = Command::new(root().join(bin));
    c.current_dir(cwd).env_clear().env("PATH", "/usr/bin:/bin").env("RUST_BACKTRACE", "0").process_group(0).uid(NOBODY).gid(NOBODY);
    let daemon = bin == "nora_sshd";
    unsafe {
        c.pre_exec(move || {
            // Nothing may outlive the harness.
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::umask(0o022);
            // One that spins or writes without end is ended, and `finish` tells.
            for (what, n) in [(libc::RLIMIT_CPU, CPU_SECONDS), (libc::RLIMIT_FSIZE, 1 << 30), (libc::RLIMIT_CORE, 0)] {
                if daemon {
                    break;
                }
                let l = libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY };
                libc::setrlimit(what, &l);
            }
            Ok(())
        });
    }
    c
}

impl Proc {
    pub fn spawn(c: Command) -> Proc {
        Self::spawn_with(c, Stdio::piped(), None)
    }

    /// Its output goes to a socket, so that `hang_up` works although other threads may be forking.
    pub fn spawn_socket(c: Command) -> Proc {
        let (a, b) = std::os::unix::net::UnixStream::pair().expect("harness: socketpair");
        Self::spawn_with(c, std::os::fd::OwnedFd::from(b).into(), Some(fs::File::from(std::os::fd::OwnedFd::from(a))))
    }

    /// Its output has nowhere to go any more.
    pub fn hang_up(&mut self) {
        if let Some(o) = self.stdout.take() {
            unsafe { libc::shutdown(o.as_raw_fd(), libc::SHUT_RDWR) };
        }
    }

    fn spawn_with(mut c: Command, out: Stdio, end: Option<fs::File>) -> Proc {
        let mut child = c
            .stdin(Stdio::piped())
            .stdout(out)
            .stderr(Stdio::null())
            .spawn()
            .expect("harness: spawn");
        let stdin = fs::File::from(std::os::fd::OwnedFd::from(child.stdin.take().unwrap()));
        drop(c);
        let stdout = end.unwrap_or_else(|| fs::File::from(std::os::fd::OwnedFd::from(child.stdout.take().unwrap())));
        nonblocking(stdin.as_raw_fd());
        nonblocking(stdout.as_raw_fd());
        Proc { child, stdin: Some(stdin), stdout: Some(stdout), out: Vec::new(), out_eof: false, broken: false }
    }

    /// Read what is there. True if anything was.
    pub fn pull(&mut self) -> bool {
        let mut any = false;
        let mut b = [0; 1 << 16];
        while let Some(o) = &mut self.stdout {
            match o.read(&mut b) {
                Ok(0) => {
                    self.out_eof = true;
                    self.stdout = None;
                    any = true;
                }
                Ok(n) => {
                    self.out.extend_from_slice(&b[..n]);
                    any = true;
                    if self.out.len() > MAX_OUT {
                        unsafe { libc::kill(-(self.child.id() as i32), libc::SIGXCPU) };
                        self.out_eof = true;
                        self.stdout = None;
                    }
                }
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        any
    }

    /// Write some of it.
    pub fn push(&mut self, data: &[u8]) -> usize {
        match &mut self.stdin {
            None => data.len(),
            Some(f) => match f.write(data) {
                Ok(n) => n,
                Err(e) if e.kind() == io::ErrorKind::WouldBlock || e.kind() == io::ErrorKind::Interrupted => 0,
                Err(_) => {
                    self.broken = true;
                    self.stdin = None;
                    data.len()
                }
            },
        }
    }

    /// Bytes it has not read yet.
    pub fn unread(&self) -> usize {
        let Some(f) = &self.stdin else { return 0 };
        let mut n: libc::c_int = 0;
        unsafe { libc::ioctl(f.as_raw_fd(), libc::FIONREAD, &mut n) };
        n as usize
    }

    pub fn wait_events(&self, want_write: bool, ms: i32) {
        let mut fds = Vec::new();
        if let Some(o) = &self.stdout {
            fds.push(libc::pollfd { fd: o.as_raw_fd(), events: libc::POLLIN, revents: 0 });
        }
        if let (true, Some(i)) = (want_write, &self.stdin) {
            fds.push(libc::pollfd { fd: i.as_raw_fd(), events: libc::POLLOUT, revents: 0 });
        }
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, ms) };
    }

    /// It sleeps, has read everything and all it wrote has been collected, so nothing will happen
    /// until it is given something.
    pub fn at_rest(&mut self) -> bool {
        for _ in 0..2 {
            if self.unread() != 0 || state(self.child.id() as i32) != Some('S') {
                return false;
            }
            if self.pull() {
                return false;
            }
        }
        true
    }

    /// It sleeps although there is input.
    pub fn at_rest_full(&mut self) -> bool {
        state(self.child.id() as i32) == Some('S') && !self.pull()
    }

    /// Wait until it is at rest or has ended. Err: neither after a long time.
    pub fn settle(&mut self) -> Result<(), String> {
        let t = Instant::now();
        let mut quiet = 0;
        loop {
            self.pull();
            if self.exited().is_some() {
                self.pull();
                return Ok(());
            }
            if self.at_rest() {
                quiet += 1;
                if quiet >= 3 {
                    return Ok(());
                }
            } else {
                quiet = 0;
            }
            if t.elapsed() > Duration::from_secs(120) {
                panic!("harness: process neither rests nor ends");
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }

    pub fn exited(&mut self) -> Option<std::process::ExitStatus> {
        self.child.try_wait().expect("harness: wait")
    }

    /// Wait for the end. None: it rests although its input has ended or it should not need any, or
    /// it never rests.
    pub fn finish(&mut self) -> Option<std::process::ExitStatus> {
        let t = Instant::now();
        let mut rest_since: Option<Instant> = None;
        loop {
            self.pull();
            if let Some(s) = self.exited() {
                while self.stdout.is_some() && self.pull() {}
                return (s.signal() != Some(libc::SIGXCPU)).then_some(s);
            }
            if self.at_rest() {
                let since = *rest_since.get_or_insert_with(Instant::now);
                // It has nothing to wait for: five seconds asleep with all input read is for ever.
                if since.elapsed() > Duration::from_secs(5) {
                    return None;
                }
            } else {
                rest_since = None;
            }
            if t.elapsed() > Duration::from_secs(200) {
                panic!("harness: process neither rests nor ends");
            }
            self.wait_events(false, 1);
            std::thread::sleep(Duration::from_micros(100));
        }
    }

    pub fn close_stdin(&mut self) {
        self.stdin = None;
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        unsafe { libc::kill(-(self.child.id() as i32), libc::SIGKILL) };
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn state(pid: i32) -> Option<char> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    s[s.rfind(')')? + 2..].chars().next()
}

/// Whether every thread of every process of the group sleeps.
pub fn group_asleep(pgid: i32) -> bool {
    let Ok(it) = fs::read_dir("/proc") else { return false };
    for e in it.flatten() {
        let name = e.file_name();
        let Some(pid) = name.to_str().and_then(|s| s.parse::<i32>().ok()) else { continue };
        let Ok(s) = fs::read_to_string(format!("/proc/{}/stat", pid)) else { continue };
        let Some(i) = s.rfind(')') else { continue };
        let f: Vec<&str> = s[i + 2..].split(' ').collect();
        if f.get(2).and_then(|s| s.parse::<i32>().ok()) != Some(pgid) {
            continue;
        }
        let Ok(tasks) = fs::read_dir(format!("/proc/{}/task", pid)) else { continue };
        for t in tasks.flatten() {
            let Ok(s) = fs::read_to_string(t.path().join("stat")) else { continue };
            let Some(i) = s.rfind(')') else { continue };
            if !matches!(s[i + 2..].chars().next(), Some('S' | 'Z' | 'X')) {
                return false;
            }
        }
    }
    true
}
