//! A monitored session: a subject process on a pseudo-terminal (or pipes), its
//! control channel, and quiescence detection from the outside.
use crate::model::*;
use crate::rng::Rng;
use crate::subj::*;
use crate::vt::*;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::fs::FileExt;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Fail {
    /// Definite: something observed contradicts the specification.
    Viol(String),
    /// Depends on time having passed: only believed when it happens again.
    Soft(String),
    /// The harness could not do its work.
    Infra(String),
}
pub type R<T> = Result<T, Fail>;

pub fn viol<T, S: Into<String>>(s: S) -> R<T> {
    Err(Fail::Viol(s.into()))
}

#[macro_export]
macro_rules! bail {
    ($($a:tt)*) => { return Err($crate::sess::Fail::Viol(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::sess::Fail::Viol(format!($($a)*))); } };
}

/// A value of `term` for not setting TERM at all.
pub const UNSET: &str = "(unset)";
#[derive(Clone, Debug)]
pub struct Opts {
    pub term: String,
    pub w: usize,
    pub h: usize,
    pub flavor: Flavor,
    pub bin: PathBuf,
    pub env: Vec<(String, String)>,
    pub stdin_pipe: bool,
    pub stdout_pipe: bool,
    /// stderr goes to the terminal too
    pub stderr_tty: bool,
    pub prerows: Vec<String>,
    /// report a window size of 0x0
    pub zero_size: bool,
    /// VT52: number of colors, white on black
    pub pal: (u8, bool),
    /// no echo and no output processing by the terminal driver
    pub plain_tty: bool,
    /// random delays: seed, one in how many calls, longest in microseconds;
    /// descriptors are watched as well
    pub chaos: Option<(u64, u32, u32)>,
    /// interrupt the subject's threads with harmless signals (seed; 0: don't)
    pub signals: u64,
    /// time passes so many times as fast for the subject (0: as usual)
    pub warp: u32,
}
impl Opts {
    pub fn new(w: usize, h: usize) -> Opts {
        Opts {
            term: "xterm".into(),
            w,
            h,
            flavor: Flavor::Ansi,
            bin: std::env::current_exe().unwrap(),
            env: vec![],
            stdin_pipe: false,
            stdout_pipe: false,
            stderr_tty: false,
            prerows: vec![],
            zero_size: false,
            pal: (16, false),
            plain_tty: false,
            chaos: None,
            signals: 0,
            warp: 0,
        }
    }
    pub fn pipes(w: usize, h: usize) -> Opts {
        Opts { stdin_pipe: true, stdout_pipe: true, ..Opts::new(w, h) }
    }
}

pub fn hi(fd: RawFd) -> OwnedFd {
    unsafe {
        let n = libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 20);
        assert!(n >= 0, "fcntl");
        libc::close(fd);
        OwnedFd::from_raw_fd(n)
    }
}
fn mkpipe() -> (OwnedFd, OwnedFd) {
    let mut f = [0; 2];
    unsafe {
        assert_eq!(libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC), 0);
    }
    (hi(f[0]), hi(f[1]))
}
pub fn set_nonblock(fd: RawFd) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK);
    }
}
pub fn open_pty(w: usize, h: usize) -> (OwnedFd, OwnedFd) {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(m >= 0, "posix_openpt");
        let m = hi(m);
        assert_eq!(libc::grantpt(m.as_raw_fd()), 0);
        assert_eq!(libc::unlockpt(m.as_raw_fd()), 0);
        let mut name = [0i8; 128];
        assert_eq!(libc::ptsname_r(m.as_raw_fd(), name.as_mut_ptr(), 128), 0);
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(s >= 0, "open slave");
        let s = hi(s);
        set_size(s.as_raw_fd(), w, h);
        set_nonblock(m.as_raw_fd());
        (m, s)
    }
}
pub fn set_size(fd: RawFd, w: usize, h: usize) {
    unsafe {
        let ws = libc::winsize {
            ws_row: h as u16,
            ws_col: w as u16,
            ws_xpixel: 0,
            ws_ypixel: 0,
        };
        libc::ioctl(fd, libc::TIOCSWINSZ, &ws);
    }
}

pub struct Sess {
    pub opts: Opts,
    child: Child,
    pub pid: i32,
    pub master: Option<OwnedFd>,
    pub slave: Option<OwnedFd>,
    pub in_w: Option<OwnedFd>,
    pub out_r: Option<OwnedFd>,
    ctl: File,
    rep: OwnedFd,
    repbuf: Vec<u8>,
    pub vt: Vt,
    /// everything the subject wrote (terminal or stdout pipe)
    pub raw: Vec<u8>,
    pub out_eof: bool,
    tasks: BTreeMap<i32, (File, File)>,
    pub stderr_path: PathBuf,
    chaos_log: PathBuf,
    pub termios0: String,
    pub trace: Vec<String>,
    pub exited: Option<String>,
    pub stats: Stats,
    pub base_rows: usize,
    sig: Option<Rng>,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub syncs: u64,
    pub cmds: u64,
    pub typed: u64,
    pub screens: u64,
    pub resps: u64,
    pub chaos: u64,
    pub signals: u64,
}

const CHAOS: &str = include_str!("checks/chaos.c");
const WARP: &str = include_str!("checks/warp.c");
static SEQ: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

impl Sess {
    pub fn start(mut opts: Opts) -> R<Sess> {
        // (developer's tool)
        if let (Ok(x), None) = (std::env::var("LISOMON_CHAOS"), opts.chaos) {
            let mut p = x.split(',').map(|x| x.parse::<u64>().unwrap_or(0));
            let mut f = || p.next().unwrap_or(0);
            opts.chaos = Some((f(), f() as u32, f() as u32));
        }
        let (master, slave) = open_pty(opts.w, opts.h);
        if opts.zero_size {
            set_size(slave.as_raw_fd(), 0, 0);
        }
        if opts.plain_tty {
            unsafe {
                let mut t: libc::termios = std::mem::zeroed();
                libc::tcgetattr(slave.as_raw_fd(), &mut t);
                t.c_lflag &= !(libc::ECHO | libc::ECHONL);
                t.c_oflag &= !libc::OPOST;
                libc::tcsetattr(slave.as_raw_fd(), libc::TCSANOW, &t);
            }
        }
        let (cr, cw) = mkpipe();
        let (rr, rw) = mkpipe();
        let n = SEQ.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let stderr_path = crate::orch::scratch().join(format!("stderr.{}", n));
        let errf = File::create(&stderr_path).map_err(|e| Fail::Infra(e.to_string()))?;
        let mut c = Command::new(&opts.bin);
        c.arg("subject");
        c.env_clear();
        for k in ["PATH", "HOME", "LANG"] {
            if let Ok(v) = std::env::var(k) {
                c.env(k, v);
            }
        }
        if opts.term != UNSET {
            c.env("TERM", &opts.term);
        }
        c.env("RUST_BACKTRACE", "0");
        let chaos_log = crate::orch::scratch().join(format!("chaos.{}", n));
        if let Some((seed, p, us)) = opts.chaos {
            c.env("LD_PRELOAD", crate::orch::shared_object("chaos", CHAOS)?);
            c.env("CHAOS", format!("{},{},{}", seed >> 1, p, us));
            c.env("CHAOS_LOG", &chaos_log);
        }
        if opts.warp != 0 {
            c.env("LD_PRELOAD", crate::orch::shared_object("warp", WARP)?);
            c.env("WARP", opts.warp.to_string());
        }
        if opts.signals != 0 {
            c.env("LISOMON_USR1", "1");
        }
        for (k, v) in &opts.env {
            c.env(k, v);
        }
        let dup = |fd: &OwnedFd| fd.try_clone().unwrap();
        let mut in_w = None;
        let mut out_r = None;
        if opts.stdin_pipe {
            let (r, w) = mkpipe();
            c.stdin(Stdio::from(r));
            set_nonblock(w.as_raw_fd());
            in_w = Some(w);
        } else {
            c.stdin(Stdio::from(dup(&slave)));
        }
        if opts.stdout_pipe {
            let (r, w) = mkpipe();
            c.stdout(Stdio::from(w));
            set_nonblock(r.as_raw_fd());
            out_r = Some(r);
        } else {
            c.stdout(Stdio::from(dup(&slave)));
        }
        if opts.stderr_tty {
            c.stderr(Stdio::from(dup(&slave)));
        } else {
            c.stderr(Stdio::from(errf));
        }
        let (crf, rwf) = (cr.as_raw_fd(), rw.as_raw_fd());
        unsafe {
            c.pre_exec(move || {
                libc::setsid();
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &rl);
                if libc::dup2(crf, 3) < 0 || libc::dup2(rwf, 4) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| Fail::Infra(format!("spawn: {}", e)))?;
        drop((cr, rw));
        drop(c);
        let mut vt = Vt::new(opts.flavor, opts.w, opts.h);
        if opts.flavor == Flavor::Vt52 {
            let (f, b) = pal_attr(Attr::default(), opts.pal);
            vt.start52(f, b);
        }
        for r in &opts.prerows {
            vt.feed(r.as_bytes());
            vt.feed(b"\r\n");
        }
        let base_rows = vt.abs_row();
        let termios0 = termios_text(slave.as_raw_fd());
        let mut s = Sess {
            pid: child.id() as i32,
            opts,
            child,
            master: Some(master),
            slave: Some(slave),
            in_w,
            out_r,
            ctl: File::from(cw),
            rep: rr,
            repbuf: vec![],
            vt,
            raw: vec![],
            out_eof: false,
            tasks: BTreeMap::new(),
            stderr_path,
            chaos_log,
            termios0,
            trace: vec![],
            exited: None,
            stats: Stats::default(),
            base_rows,
            sig: None,
        };
        s.call(Cmd::Hello)?;
        if s.opts.signals != 0 {
            s.sig = Some(Rng::new(s.opts.signals));
        }
        Ok(s)
    }
    /// Maybe interrupt one of the subject's threads with a signal that does
    /// nothing: what a program that handles signals of its own sees all the
    /// time. System calls may then fail with EINTR.
    fn poke(&mut self) {
        let Some(r) = &mut self.sig else { return };
        if !r.chance(1, 3) || self.exited.is_some() {
            return;
        }
        let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", self.pid)) else { return };
        let mut t: Vec<i32> = d.flatten().filter_map(|e| e.file_name().to_string_lossy().parse().ok()).collect();
        t.sort();
        if t.is_empty() {
            return;
        }
        for _ in 0..r.range(1, 3) {
            let tid = *r.pick(&t);
            unsafe { libc::syscall(libc::SYS_tgkill, self.pid, tid, libc::SIGUSR1) };
            self.stats.signals += 1;
        }
    }
    fn out_fd(&self) -> Option<RawFd> {
        if self.out_eof {
            return None;
        }
        if self.opts.stdout_pipe {
            self.out_r.as_ref().map(|x| x.as_raw_fd())
        } else {
            self.master.as_ref().map(|x| x.as_raw_fd())
        }
    }
    /// Take whatever output is there. Returns whether there was any.
    pub fn pump(&mut self) -> bool {
        let mut any = false;
        let Some(fd) = self.out_fd() else { return false };
        poll_fd(fd, libc::POLLIN, 0);
        // (there may be no end of it)
        for _ in 0..64 {
            let mut b = [0u8; 8192];
            let n = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, b.len()) };
            if n > 0 {
                any = true;
                let d = &b[..n as usize];
                self.raw.extend_from_slice(d);
                if !self.opts.stdout_pipe {
                    self.vt.feed(d);
                }
            } else {
                if n == 0 {
                    self.out_eof = true;
                }
                break;
            }
        }
        any
    }
    pub fn check_alive(&mut self) -> R<()> {
        if let Some(e) = &self.exited {
            return viol(format!("the program died: {}", e));
        }
        if let Ok(Some(st)) = self.child.try_wait() {
            let e = format!("{:?}; stderr: {}", st, self.stderr_tail());
            self.exited = Some(e.clone());
            return viol(format!("the program died: {}", e));
        }
        Ok(())
    }
    pub fn stderr_tail(&self) -> String {
        let s = std::fs::read(&self.stderr_path).unwrap_or_default();
        let s = String::from_utf8_lossy(&s).to_string();
        let n = s.chars().count();
        s.chars().skip(n.saturating_sub(1500)).collect()
    }
    pub fn send(&mut self, c: &Cmd) -> R<()> {
        let mut v = serde_json::to_vec(c).unwrap();
        if self.trace.len() < 4000 {
            self.trace.push(String::from_utf8_lossy(&v).to_string());
        }
        v.push(b'\n');
        self.stats.cmds += 1;
        self.poke();
        if self.ctl.write_all(&v).is_err() {
            self.check_alive()?;
            return Err(Fail::Infra("control channel broken".into()));
        }
        self.poke();
        Ok(())
    }
    /// Wait for a reply while keeping the output flowing.
    pub fn recv(&mut self, timeout: Duration) -> R<Option<Reply>> {
        let end = Instant::now() + timeout;
        loop {
            if let Some(p) = self.repbuf.iter().position(|b| *b == b'\n') {
                let l: Vec<u8> = self.repbuf.drain(..=p).collect();
                let r = serde_json::from_slice(&l)
                    .map_err(|e| Fail::Infra(format!("reply: {} {:?}", e, l)))?;
                return Ok(Some(r));
            }
            let mut fds = vec![libc::pollfd { fd: self.rep.as_raw_fd(), events: libc::POLLIN, revents: 0 }];
            if let Some(fd) = self.out_fd() {
                fds.push(libc::pollfd { fd, events: libc::POLLIN, revents: 0 });
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return Ok(None);
            }
            unsafe {
                libc::poll(fds.as_mut_ptr(), fds.len() as u64, left.as_millis().min(100) as i32 + 1);
            }
            if fds.len() > 1 && fds[1].revents != 0 {
                let got = self.pump();
                if !got && fds[1].revents & (libc::POLLHUP | libc::POLLERR) != 0 && fds[0].revents == 0 {
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            if fds[0].revents != 0 {
                let mut b = [0u8; 65536];
                let n = unsafe { libc::read(self.rep.as_raw_fd(), b.as_mut_ptr() as *mut _, b.len()) };
                if n <= 0 {
                    // closed: the subject has exited
                    for _ in 0..200 {
                        self.check_alive()?;
                        std::thread::sleep(Duration::from_millis(5));
                    }
                    return Err(Fail::Infra("reply channel closed".into()));
                }
                self.repbuf.extend_from_slice(&b[..n as usize]);
            }
        }
    }
    pub fn call_t(&mut self, c: Cmd, timeout: Duration) -> R<Option<Reply>> {
        self.send(&c)?;
        self.recv(timeout)
    }
    /// A call that must come back, without a panic.
    pub fn call(&mut self, c: Cmd) -> R<Reply> {
        let what = format!("{:?}", c);
        let r = self.call_raw(c)?;
        if let Some(p) = r.panic {
            return viol(format!("panic in {}: {}", trunc(&what, 200), p));
        }
        Ok(r)
    }
    pub fn call_raw(&mut self, c: Cmd) -> R<Reply> {
        let what = format!("{:?}", c);
        match self.call_t(c, Duration::from_secs(30))? {
            Some(r) => Ok(r),
            None => {
                Err(self.stuck(format!("{} did not return within 30 s", trunc(&what, 200))))
            }
        }
    }
    pub fn thread_dump(&mut self) -> String {
        let mut out = String::new();
        if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", self.pid)) {
            for e in d.flatten() {
                let comm = std::fs::read_to_string(e.path().join("comm")).unwrap_or_default();
                let stat = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
                let wchan = std::fs::read_to_string(e.path().join("wchan")).unwrap_or_default();
                let st = stat.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('?');
                out.push_str(&format!("[{} {} {}] ", comm.trim(), st, wchan));
            }
        }
        out
    }
    /// Something takes far too long. If the threads just wait (at most one of
    /// them spinning), it will never end; otherwise the machine may be slow.
    pub fn stuck<S: Into<String>>(&mut self, msg: S) -> Fail {
        let snap = |pid: i32| -> std::collections::BTreeMap<String, (char, String)> {
            let mut m = std::collections::BTreeMap::new();
            if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
                for e in d.flatten() {
                    let stat = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
                    let sched = std::fs::read_to_string(e.path().join("schedstat")).unwrap_or_default();
                    let st = stat.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('?');
                    m.insert(e.file_name().to_string_lossy().to_string(), (st, sched));
                }
            }
            m
        };
        let dump = self.thread_dump();
        let msg = format!("{}; threads: {}", msg.into(), dump);
        let mut all = true;
        let first = snap(self.pid);
        for _ in 0..8 {
            std::thread::sleep(Duration::from_millis(150));
            self.pump();
            let now = snap(self.pid);
            let moved = now.iter().filter(|(t, v)| v.0 != 'S' || first.get(*t) != Some(*v)).count();
            if moved > 1 || now.is_empty() {
                all = false;
            }
        }
        if all {
            Fail::Viol(format!("{} (nothing is going on)", msg))
        } else {
            Fail::Soft(msg)
        }
    }
    /// (quiet?, fingerprint of all threads' progress)
    fn sample(&mut self) -> Option<(bool, u64)> {
        let dir = format!("/proc/{}/task", self.pid);
        let mut tids = vec![];
        for e in std::fs::read_dir(&dir).ok()?.flatten() {
            if let Ok(n) = e.file_name().to_string_lossy().parse::<i32>() {
                tids.push(n);
            }
        }
        self.tasks.retain(|k, _| tids.contains(k));
        let mut quiet = true;
        let mut fp = 0u64;
        for t in tids {
            if !self.tasks.contains_key(&t) {
                let (Ok(a), Ok(b)) = (
                    File::open(format!("{}/{}/stat", dir, t)),
                    File::open(format!("{}/{}/schedstat", dir, t)),
                ) else {
                    quiet = false;
                    continue;
                };
                self.tasks.insert(t, (a, b));
            }
            let (a, b) = &self.tasks[&t];
            let mut buf = [0u8; 512];
            let n = match a.read_at(&mut buf, 0) {
                Ok(n) => n,
                Err(_) => {
                    quiet = false;
                    continue;
                }
            };
            let s = &buf[..n];
            let p = s.iter().rposition(|x| *x == b')').unwrap_or(0);
            let state = s.get(p + 2).copied().unwrap_or(b'?');
            if state != b'S' {
                quiet = false;
            }
            let n = match b.read_at(&mut buf, 0) {
                Ok(n) => n,
                Err(_) => {
                    quiet = false;
                    continue;
                }
            };
            fp = crate::rng::mix(fp ^ crate::rng::hash_bytes(&buf[..n]) ^ (t as u64));
        }
        Some((quiet, fp))
    }
    fn in_pending(&self) -> i32 {
        let fd = if let Some(w) = &self.in_w {
            w.as_raw_fd()
        } else if let Some(s) = &self.slave {
            s.as_raw_fd()
        } else {
            return 0;
        };
        let mut n: i32 = 0;
        unsafe {
            if libc::ioctl(fd, libc::FIONREAD, &mut n) != 0 {
                return 0;
            }
        }
        n
    }
    /// Wait until the subject has nothing left to do.
    pub fn sync(&mut self) -> R<()> {
        self.stats.syncs += 1;
        let start = Instant::now();
        let mut last: Option<u64> = None;
        let mut stable_since = Instant::now();
        let mut rounds = 0u32;
        loop {
            rounds += 1;
            if let Some(s) = &self.slave {
                poll_fd(s.as_raw_fd(), libc::POLLIN, 0);
            }
            let got = self.pump();
            let Some((quiet, fp)) = self.sample() else {
                self.check_alive()?;
                return Err(Fail::Infra("no /proc entry".into()));
            };
            if got || !quiet {
                last = None;
                if start.elapsed() > Duration::from_secs(20) {
                    self.check_alive()?;
                    let d = self.thread_dump();
                    return Err(Fail::Soft(format!("never became idle within 20 s; threads: {}", d)));
                }
                if !quiet && rounds % 64 == 0 {
                    self.check_alive()?;
                }
                if !quiet {
                    std::thread::sleep(Duration::from_micros(30));
                }
                continue;
            }
            if last == Some(fp) {
                if self.in_pending() == 0 || stable_since.elapsed() > Duration::from_millis(500) {
                    if !self.pump() {
                        return self.check_alive();
                    }
                    last = None;
                }
            } else {
                last = Some(fp);
                stable_since = Instant::now();
            }
            std::thread::sleep(Duration::from_micros(30));
        }
    }
    /// Sync repeatedly until `f` is satisfied or `max` has passed; the last
    /// result is returned.
    pub fn settle<F: Fn(&mut Sess) -> Result<(), String>>(&mut self, max: Duration, f: F) -> R<()> {
        let start = Instant::now();
        let mut d = 1;
        loop {
            self.sync()?;
            match f(self) {
                Ok(()) => return Ok(()),
                Err(e) => {
                    if start.elapsed() > max {
                        return viol(e);
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(d));
            d = (d * 2).min(50);
        }
    }
    /// Write to the subject's input (terminal or pipe).
    pub fn write_in(&mut self, mut b: &[u8]) -> R<()> {
        let fd = match (&self.in_w, &self.master) {
            (Some(w), _) if self.opts.stdin_pipe => w.as_raw_fd(),
            (_, Some(m)) => m.as_raw_fd(),
            _ => return Err(Fail::Infra("no input channel".into())),
        };
        let end = Instant::now() + Duration::from_secs(20);
        self.poke();
        while !b.is_empty() {
            let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
            if n > 0 {
                b = &b[n as usize..];
                self.stats.typed += n as u64;
            } else {
                self.pump();
                std::thread::sleep(Duration::from_micros(100));
                if Instant::now() > end {
                    self.check_alive()?;
                    return Err(Fail::Soft("input is not being read".into()));
                }
            }
        }
        self.poke();
        Ok(())
    }
    pub fn type_bytes(&mut self, b: &[u8]) -> R<()> {
        if self.trace.len() < 4000 {
            self.trace.push(format!("type {:?}", String::from_utf8_lossy(b)));
        }
        for c in b.chunks(200) {
            self.write_in(c)?;
            if b.len() > 200 {
                self.sync()?;
            }
        }
        Ok(())
    }
    pub fn keys(&mut self, ks: &[Key]) -> R<()> {
        let mut v = vec![];
        for k in ks {
            k.bytes(&mut v);
        }
        self.type_bytes(&v)
    }
    pub fn drain(&mut self) -> R<Vec<(Resp, u8)>> {
        let r = self.call(Cmd::Drain)?.resps;
        self.stats.resps += r.len() as u64;
        Ok(r)
    }
    pub fn termios(&self) -> String {
        match &self.slave {
            Some(s) => termios_text(s.as_raw_fd()),
            None => "no slave".into(),
        }
    }
    pub fn threads(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/task", self.pid)).map(|d| d.count()).unwrap_or(0)
    }
    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
    pub fn wait_exit(&mut self, t: Duration) -> Option<std::process::ExitStatus> {
        let end = Instant::now() + t;
        loop {
            self.pump();
            if let Ok(Some(s)) = self.child.try_wait() {
                return Some(s);
            }
            if Instant::now() > end {
                return None;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    /// process state letter of the main thread
    pub fn state(&self) -> char {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.pid)).unwrap_or_default();
        s.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('?')
    }
    pub fn signal(&self, sig: i32) {
        unsafe {
            libc::kill(self.pid, sig);
        }
    }
    /// What the preloaded monitor has found.
    pub fn fd_check(&self) -> R<()> {
        let t = std::fs::read_to_string(&self.chaos_log).unwrap_or_default();
        ensure!(t.is_empty(), "descriptors: {}", trunc(&t, 500));
        Ok(())
    }
    pub fn hangup(&mut self) {
        self.slave = None;
        self.master = None;
    }

    // ------------------------------------------------------------- oracles

    /// Compare the emulated screen with the model. `extra` rows are expected
    /// between the rows that were there at the start and the live area.
    pub fn compare(&self, ui: &Ui) -> Result<(), String> {
        self.compare_opt(ui, true)
    }
    pub fn compare_opt(&self, ui: &Ui, live_too: bool) -> Result<(), String> {
        let vt = &self.vt;
        let (live, cpos) = if live_too { ui.live() } else { (vec![], None) };
        let mut expect: Vec<&LRow> = ui.rows.iter().collect();
        expect.extend(live.iter());
        let base = self.base_rows;
        let mut err = None;
        for (i, r) in self.opts.prerows.iter().enumerate() {
            let t = row_text(vt.row(i));
            if t.trim_end() != r.trim_end() {
                err = Some(format!("row {} that was there before changed: {:?} instead of {:?}", i, t, r));
            }
        }
        for (i, er) in expect.iter().enumerate() {
            let r = base + i;
            if r >= vt.total_rows() {
                err = Some(format!("row {} missing", r));
                break;
            }
            if let Err(e) = self.cmp(vt.row(r), er) {
                err = Some(format!("row {}: {}", r, e));
                break;
            }
        }
        if err.is_none() {
            for r in base + expect.len()..vt.total_rows() {
                if let Err(e) = self.cmp(vt.row(r), &vec![]) {
                    err = Some(format!("row {} should be blank: {}", r, e));
                    break;
                }
            }
        }
        if err.is_none() && !ui.any_cursor {
            if let Some((cr, cc)) = cpos {
                let (er, ec) = (base + ui.rows.len() + cr, cc.min(ui.w - 1));
                if (vt.abs_row(), vt.cx) != (er, ec) {
                    err = Some(format!(
                        "cursor at row {} column {}, should be at row {} column {}",
                        vt.abs_row(),
                        vt.cx,
                        er,
                        ec
                    ));
                }
            }
        }
        if err.is_none() && live_too && ui.engaged && vt.visible != ui.cursor_visible() {
            err = Some(format!("cursor visible: {}, should be {}", vt.visible, ui.cursor_visible()));
        }
        if err.is_none() && !vt.anomalies.is_empty() {
            err = Some(format!("anomalies: {:?}", vt.anomalies));
        }
        if err.is_none() && !vt.unknown.is_empty() {
            err = Some(format!("unexpected sequences: {:?}", vt.unknown));
        }
        if err.is_none() && !vt.in_ground() {
            err = Some("an escape sequence was left unfinished".into());
        }
        match err {
            None => Ok(()),
            Some(e) => {
                let mut want = String::new();
                for (i, r) in expect.iter().enumerate() {
                    let t: String = r.iter().filter(|c| !c.cont).map(|c| c.ch).collect();
                    want.push_str(&format!("{:3}|{}|\n", base + i, t));
                }
                Err(format!("{}\nseen:\n{}\nexpected:\n{}", e, vt.dump(), want))
            }
        }
    }
    pub fn cmp(&self, seen: &[Cell], want: &LRow) -> Result<(), String> {
        if self.opts.flavor == Flavor::Ansi {
            return cmp_row(seen, want);
        }
        let pal = self.opts.pal;
        let mask = pal.0 - 1;
        let at = |a: Attr| {
            let (f, b) = pal_attr(a, pal);
            Attr { s: 0, fg: Some(f & mask), bg: Some(b & mask) }
        };
        let seen: Vec<Cell> = seen
            .iter()
            .map(|c| {
                let mut c = c.clone();
                c.attr.fg = c.attr.fg.map(|x| x & mask);
                c.attr.bg = c.attr.bg.map(|x| x & mask);
                c
            })
            .collect();
        let mut w: LRow = want
            .iter()
            .map(|c| LCell {
                ch: if c.cont || !c.ch.is_ascii() { '\u{7f}' } else { c.ch },
                comb: String::new(),
                cont: false,
                attr: c.attr.map(at),
            })
            .collect();
        while w.len() < seen.len() {
            w.push(LCell { ch: ' ', comb: String::new(), cont: false, attr: Some(at(Attr::default())) });
        }
        cmp_row(&seen, &w)
    }
    pub fn expect_screen(&mut self, ui: &Ui) -> R<()> {
        self.stats.screens += 1;
        if self.compare(ui).is_ok() {
            return Ok(());
        }
        // (only a lasting difference counts)
        let ui = ui.clone();
        self.settle(Duration::from_millis(1500), move |s| s.compare(&ui))
    }
}

/// Palette entries (foreground, background) a VT52-type terminal shows for
/// attributes.
pub fn pal_attr(a: Attr, (n, wob): (u8, bool)) -> (u8, u8) {
    const BRIGHT: [u8; 8] = [8, 1, 2, 13, 4, 12, 9, 0];
    const DIM: [u8; 8] = [15, 3, 5, 11, 6, 14, 10, 7];
    const FOUR: [u8; 8] = [15, 1, 2, 2, 3, 1, 2, 0];
    let (f0, b0) = if wob { (0, 15) } else { (15, 0) };
    let (ft, bt) = match (n, wob) {
        (16, false) => (DIM, BRIGHT),
        (16, true) => (BRIGHT, DIM),
        _ => (FOUR, FOUR),
    };
    let (f, b) = if n == 2 {
        (f0, b0)
    } else {
        (
            a.fg.map(|c| ft[c as usize]).unwrap_or(f0),
            a.bg.map(|c| bt[c as usize]).unwrap_or(b0),
        )
    };
    if a.s & INVERSE != 0 {
        (b, f)
    } else {
        (f, b)
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

pub fn poll_fd(fd: RawFd, ev: i16, ms: i32) -> i16 {
    let mut p = libc::pollfd { fd, events: ev, revents: 0 };
    unsafe {
        libc::poll(&mut p, 1, ms);
    }
    p.revents
}

/// Compare one row of cells; an expected row may be shorter than the screen,
/// the rest must be blank.
pub fn cmp_row(seen: &[Cell], want: &[LCell]) -> Result<(), String> {
    for (x, c) in seen.iter().enumerate() {
        let (ch, cont, attr, comb) = match want.get(x) {
            Some(w) => (w.ch, w.cont, w.attr, w.comb.as_str()),
            None => (' ', false, Some(Attr::default()), ""),
        };
        if c.ch != ch || c.cont != cont {
            return Err(format!(
                "column {} shows {:?} instead of {:?} in {:?}",
                x,
                c.ch,
                ch,
                row_text(seen)
            ));
        }
        if c.comb != comb {
            return Err(format!("column {}: combining {:?} instead of {:?}", x, c.comb, comb));
        }
        if let Some(a) = attr {
            let (sa, wa) = if ch == ' ' && !cont {
                (c.attr.on_space(), a.on_space())
            } else {
                (c.attr, a)
            };
            if sa != wa {
                return Err(format!(
                    "column {} ({:?}) has attributes {:?} instead of {:?} in {:?}",
                    x,
                    ch,
                    sa,
                    wa,
                    row_text(seen)
                ));
            }
        }
    }
    Ok(())
}

impl Drop for Sess {
    fn drop(&mut self) {
        let _ = self.child.kill();
        // killing it hangs the terminal up first, so that nothing can block
        self.slave = None;
        self.master = None;
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.stderr_path);
        let _ = std::fs::remove_file(&self.chaos_log);
        crate::orch::TRACES.with(|t| {
            let mut t = t.borrow_mut();
            if t.len() < 20 {
                t.push(std::mem::take(&mut self.trace))
            }
        });
        crate::orch::STATS.with(|t| {
            let mut t = t.borrow_mut();
            t.syncs += self.stats.syncs;
            t.cmds += self.stats.cmds;
            t.signals += self.stats.signals;
            t.typed += self.stats.typed;
            t.screens += self.stats.screens;
            t.resps += self.stats.resps;
            t.chaos += self.opts.chaos.is_some() as u64;
        });
    }
}
