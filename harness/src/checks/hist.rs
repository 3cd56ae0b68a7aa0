//! C08 (the history container) and C09 (history files under crashes and
//! errors).
use super::*;
use liso::History;
use std::io::Read;
use std::num::NonZeroUsize;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
pub struct HM {
    pub lines: Vec<String>,
    pub limit: Option<usize>,
    pub strip: bool,
}
impl HM {
    pub fn new() -> HM {
        HM { lines: vec![], limit: Some(100), strip: true }
    }
    pub fn add(&mut self, l: &str) {
        if self.strip {
            self.lines.retain(|x| x != l);
        }
        self.lines.push(l.into());
        if let Some(n) = self.limit {
            if self.lines.len() > n {
                self.lines = self.lines.split_off(self.lines.len() - n);
            }
        }
    }
}

fn hline(r: &mut Rng, pool: &[String]) -> String {
    if r.chance(1, 2) && !pool.is_empty() {
        return r.pick(pool).clone();
    }
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(10, 60),
        _ => r.range(1, 8),
    };
    let mut t: String = (0..n)
        .map(|_| gchar(r, TextCfg { wide: true, zw: true, ctl: true, nl: false, ascii: false }, false))
        .collect();
    while t.ends_with('\r') {
        t.pop();
    }
    if r.chance(1, 25) {
        // (means nothing special, except at the start of a file)
        t.insert(0, '\u{feff}');
    }
    t
}

/// The name of a file: some are not UTF-8.
fn fname(n: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = vec![];
    for ch in n.chars() {
        match ch {
            '\u{f8ff}' => v.push(0xff),
            _ => v.extend(ch.to_string().as_bytes()),
        }
    }
    std::ffi::OsString::from_vec(v)
}
fn case_dir() -> PathBuf {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let p = scratch().join(format!("h{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir_all(&p).expect("scratch directory");
    p
}
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Default)]
struct Rec {
    /// lines seen by the handler, and what it answered
    calls: Vec<(u32, Vec<String>, bool)>,
    /// what the handler is to answer
    fail: bool,
    drops: u32,
}

fn s_ops(c: &mut Ctx) -> R<()> {
    let dir = Dir(case_dir());
    for _ in 0..4 {
        ops_once(c, &dir.0)?;
    }
    Ok(())
}
struct DropNote(Arc<Mutex<Rec>>);
impl Drop for DropNote {
    fn drop(&mut self) {
        self.0.lock().unwrap().drops += 1;
    }
}
fn ops_once(c: &mut Ctx, dir: &Path) -> R<()> {
    let rec = Arc::new(Mutex::new(Rec::default()));
    let mut h = History::new();
    let mut m = HM::new();
    let mut pool: Vec<String> = vec![];
    let mut interval: Option<usize> = None;
    // lines added since the last time the autosave was due, at least and at
    // most (whether lines already counted count for a changed interval is not
    // said)
    let (mut lo, mut hi) = (0usize, 0usize);
    let mut handler: Option<u32> = None;
    let mut nhandlers = 0;
    // lines were added since the last successful autosave
    let mut unsaved = false;
    let mut trace: Vec<String> = vec![];
    ensure!(h.get_lines().is_empty(), "a new history has lines");
    let n = c.rng.range(5, 60);
    for _ in 0..n {
        match c.rng.weighted(&[60, 6, 5, 6, 7, 4, 8]) {
            0 => {
                let l = hline(&mut c.rng, &pool);
                pool.push(l.clone());
                let fail = c.rng.chance(1, 4);
                rec.lock().unwrap().fail = fail;
                trace.push(format!("add {:?} (saving would {})", l, if fail { "fail" } else { "work" }));
                let before = rec.lock().unwrap().calls.len();
                let r = h.add_line(l.clone());
                m.add(&l);
                unsaved = true;
                let calls: Vec<_> = rec.lock().unwrap().calls[before..].to_vec();
                let due = match interval {
                    None => Some(false),
                    Some(i) if lo + 1 >= i => Some(true),
                    Some(i) if hi + 1 < i => Some(false),
                    Some(_) => None,
                };
                ensure!(calls.len() <= 1, "autosaved {} times for one line: {:?}", calls.len(), trace);
                let ran = calls.len() == 1;
                match due {
                    Some(true) => ensure!(ran == handler.is_some(), "autosave due but the handler was not called: {:?}", trace),
                    Some(false) => ensure!(!ran, "autosave not due but the handler was called: {:?}", trace),
                    None => {}
                }
                if let Some((id, lines, _)) = calls.first() {
                    ensure!(Some(*id) == handler, "a replaced handler was called: {:?}", trace);
                    ensure!(*lines == m.lines, "the handler saw {:?} instead of {:?}: {:?}", lines, m.lines, trace);
                    ensure!(r.is_err() == fail, "add_line gives {:?} when the handler {}: {:?}", r, if fail { "fails" } else { "works" }, trace);
                    if let Err(e) = &r {
                        ensure!(e.to_string() == "scripted", "add_line gives another error: {:?}", e);
                    }
                    if !fail {
                        unsaved = false;
                    }
                    c.count("autosaves", 1);
                } else {
                    ensure!(r.is_ok(), "add_line gives {:?} without a failing save: {:?}", r, trace);
                }
                if ran || due == Some(true) {
                    (lo, hi) = (0, 0);
                } else if due.is_none() && handler.is_none() {
                    // (nobody can tell whether it would have been called)
                    (lo, hi) = (0, hi + 1);
                } else if interval.is_some() {
                    (lo, hi) = (lo + 1, hi + 1);
                }
            }
            1 => {
                let x = match c.rng.below(4) {
                    0 => None,
                    1 => Some(1),
                    _ => Some(c.rng.range(1, 12)),
                };
                trace.push(format!("limit {:?}", x));
                h.set_limit(x.and_then(NonZeroUsize::new));
                m.limit = x;
            }
            2 => {
                let x = c.rng.chance(1, 2);
                trace.push(format!("strip {:?}", x));
                h.set_strip_duplicates(x);
                m.strip = x;
            }
            3 => {
                let x = if c.rng.chance(1, 4) { None } else { Some(c.rng.range(1, 6)) };
                trace.push(format!("interval {:?}", x));
                h.set_autosave_interval(x.and_then(NonZeroUsize::new));
                if x.is_none() {
                    (lo, hi) = (0, 0);
                } else if interval.is_some() && interval != x {
                    lo = 0;
                }
                interval = x;
            }
            4 => {
                let before = rec.lock().unwrap().drops;
                let had = handler.is_some();
                if c.rng.chance(1, 5) {
                    trace.push("no handler".into());
                    h.set_autosave_handler(None);
                    handler = None;
                } else {
                    nhandlers += 1;
                    let id = nhandlers;
                    trace.push(format!("handler {}", id));
                    let rec2 = rec.clone();
                    let note = DropNote(rec.clone());
                    h.set_autosave_handler(Some(Box::new(move |h: &History| {
                        let _ = &note;
                        let mut r = rec2.lock().unwrap();
                        let f = r.fail;
                        r.calls.push((id, h.get_lines().to_vec(), f));
                        if f {
                            Err(std::io::Error::other("scripted"))
                        } else {
                            Ok(())
                        }
                    })));
                    handler = Some(id);
                }
                if had {
                    ensure!(rec.lock().unwrap().drops == before + 1, "the old handler was not dropped: {:?}", trace);
                }
            }
            5 => {
                // write, read back
                let p = dir.join("w");
                trace.push("write and read back".into());
                h.write_history_to(&p).map_err(|e| Fail::Viol(format!("write_history_to: {} after {:?}", e, trace)))?;
                let bytes = std::fs::read(&p).unwrap_or_default();
                let want: String = m.lines.iter().map(|x| format!("{}\n", x)).collect();
                ensure!(bytes == want.as_bytes(), "file holds {:?}, should hold {:?}", String::from_utf8_lossy(&bytes), want);
                let mut h2 = History::new();
                h2.set_limit(None);
                let k = h2.read_history_from(&p);
                ensure!(matches!(k, Ok(k) if k == m.lines.len()), "read_history_from gives {:?} for {} lines", k, m.lines.len());
                if m.lines.first().map(|x| x.starts_with('\u{feff}')) != Some(true) {
                    ensure!(h2.get_lines() == m.lines, "written {:?}, read back {:?}", m.lines, h2.get_lines());
                }
                for bad in ["/dev/full", "/nonexistent/dir/file"] {
                    if !want.is_empty() || bad != "/dev/full" {
                        ensure!(h.write_history_to(bad).is_err(), "writing to {} reports success", bad);
                    }
                }
                ensure!(h.write_history_to(dir).is_err(), "writing to a directory reports success");
                c.count("files", 1);
            }
            _ => {
                // read something from elsewhere
                let p = dir.join("r");
                let k = c.rng.below(8);
                let mut lines: Vec<String> = (0..k).map(|_| hline(&mut c.rng, &pool)).collect();
                if let Some(f) = lines.first_mut() {
                    while f.starts_with('\u{feff}') {
                        f.remove(0);
                    }
                }
                let crlf = c.rng.chance(1, 3);
                let bom = c.rng.chance(1, 3);
                let mut bytes = vec![];
                if bom && !lines.is_empty() {
                    bytes.extend("\u{feff}".as_bytes());
                }
                for (i, l) in lines.iter().enumerate() {
                    bytes.extend(l.as_bytes());
                    let last = i + 1 == lines.len();
                    if !last || l.is_empty() || c.rng.chance(3, 4) {
                        bytes.extend(if crlf { &b"\r\n"[..] } else { &b"\n"[..] });
                    }
                }
                let kind = c.rng.below(6);
                match kind {
                    0 => {
                        // bad encoding somewhere
                        let at = c.rng.below(bytes.len() + 1);
                        bytes.insert(at, *c.rng.pick(&[0xff, 0xc0, 0xfe]));
                        std::fs::write(&p, &bytes).expect("write");
                        trace.push(format!("read invalid {:?}", String::from_utf8_lossy(&bytes)));
                        let r = h.read_history_from(&p);
                        ensure!(r.is_err(), "reading invalid text gives {:?}: {:?}", r, trace);
                    }
                    1 => {
                        trace.push("read missing".into());
                        let r = h.read_history_from(dir.join("missing"));
                        ensure!(matches!(&r, Err(e) if e.kind() == std::io::ErrorKind::NotFound), "reading a missing file gives {:?}", r);
                    }
                    2 => {
                        trace.push("read directory".into());
                        let r = h.read_history_from(dir);
                        ensure!(r.is_err(), "reading a directory gives {:?}", r);
                    }
                    _ => {
                        std::fs::write(&p, &bytes).expect("write");
                        trace.push(format!("read {:?}", String::from_utf8_lossy(&bytes)));
                        let r = h.read_history_from(&p);
                        ensure!(matches!(r, Ok(n) if n == lines.len()), "reading {} lines gives {:?}: {:?}", lines.len(), r, trace);
                        m.lines = lines;
                    }
                }
                c.count("files", 1);
            }
        }
        ensure!(h.get_lines() == m.lines, "lines are {:?}, should be {:?}, after {:?}", h.get_lines(), m.lines, trace);
        c.count("operations", 1);
    }
    let before = rec.lock().unwrap().calls.len();
    rec.lock().unwrap().fail = c.rng.chance(1, 3);
    if c.rng.chance(1, 3) {
        unwound(h);
    } else {
        drop(h);
    }
    let calls: Vec<_> = rec.lock().unwrap().calls[before..].to_vec();
    if handler.is_some() {
        if unsaved {
            ensure!(calls.len() == 1, "{} autosaves when dropped with unsaved lines: {:?}", calls.len(), trace);
            c.count("saves_on_drop", 1);
        }
        ensure!(calls.len() <= 1, "{} autosaves when dropped: {:?}", calls.len(), trace);
        for (id, lines, _) in &calls {
            ensure!(Some(*id) == handler && *lines == m.lines, "when dropped, handler {} saw {:?} instead of {:?}", id, lines, m.lines);
        }
    } else {
        ensure!(calls.is_empty(), "removed handler called: {:?}", trace);
    }
    c.sig(&format!("{:?}", trace));
    c.sample(|| format!("{:?}", trace));
    Ok(())
}
/// All short programs over a small alphabet.
fn s_hexhaustive(c: &mut Ctx) -> R<()> {
    let len = if c.thorough { 7 } else { 6 };
    let total = 8usize.pow(len);
    let mut i = c.idx;
    while i < total {
        let mut x = i;
        let mut h = History::new();
        let mut m = HM::new();
        let mut ops = vec![];
        for _ in 0..len {
            let op = x % 8;
            x /= 8;
            ops.push(op);
            match op {
                0 | 1 | 2 => {
                    let l = ["a", "b", ""][op];
                    h.add_line(l.into()).map_err(|e| Fail::Viol(format!("{}", e)))?;
                    m.add(l);
                }
                3..=5 => {
                    let n = [Some(1), Some(2), None][op - 3];
                    h.set_limit(n.and_then(NonZeroUsize::new));
                    m.limit = n;
                }
                _ => {
                    h.set_strip_duplicates(op == 6);
                    m.strip = op == 6;
                }
            }
            ensure!(h.get_lines() == m.lines, "lines are {:?}, should be {:?} after {:?}", h.get_lines(), m.lines, ops);
        }
        c.count("programs", 1);
        i += 64;
    }
    Ok(())
}
fn s_defaults(c: &mut Ctx) -> R<()> {
    // the defaults as documented, at the limit
    let mut h = if c.rng.chance(1, 2) { History::new() } else { History::default() };
    let mut m = HM::new();
    for i in 0..c.rng.range(100, 300) {
        let l = format!("{}", if c.rng.chance(1, 3) { c.rng.below(i + 1) } else { i });
        h.add_line(l.clone()).map_err(|e| Fail::Viol(format!("{}", e)))?;
        m.add(&l);
        ensure!(h.get_lines() == m.lines, "lines are {:?}, should be {:?}", h.get_lines(), m.lines);
    }
    // big histories
    h.set_limit(None);
    h.set_strip_duplicates(false);
    m.limit = None;
    m.strip = false;
    for _ in 0..500 {
        let l = "x".repeat(c.rng.below(400));
        h.add_line(l.clone()).map_err(|e| Fail::Viol(format!("{}", e)))?;
        m.add(&l);
    }
    let dir = Dir(case_dir());
    let p = dir.0.join("big");
    h.write_history_to(&p).map_err(|e| Fail::Viol(format!("{}", e)))?;
    let mut h2 = History::new();
    let r = h2.read_history_from(&p);
    ensure!(matches!(r, Ok(n) if n == m.lines.len()) && h2.get_lines() == m.lines, "a big history comes back changed");
    c.sig(&format!("{}", m.lines.len()));
    Ok(())
}

pub fn c08() -> Check {
    Check {
        id: "C08",
        level: "exploration",
        rule: "random programs of adds, settings, handlers (some failing), writes and reads (CRLF, byte-order marks, invalid, missing) beside a reference model; after every operation all lines, results and handler calls are compared; all programs of 6 (thorough: 7) operations out of 8; distinct by program",
        assumptions: vec!["lines hold no line breaks", "changing from one interval to another leaves open when the next autosave is due"],
        scens: vec![
            scen("ops", 40000, s_ops).inproc(),
            scen("exhaustive", 64, s_hexhaustive).inproc().finite(),
            scen("defaults", 300, s_defaults).inproc(),
        ],
    }
}

// ---------------------------------------------------------------- C09

const SHIM: &str = include_str!("shim.c");

fn shim() -> Result<PathBuf, Fail> {
    shared_object("shim", SHIM)
}

/// Drop it while the thread is unwinding (without a message).
fn unwound(h: History) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _h = h;
        std::panic::resume_unwind(Box::new(()));
    }));
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum FOp {
    Load(String),
    Add(String),
    Interval(Option<usize>),
    Limit(Option<usize>),
    Drop,
    /// the same, because of a panic
    DropPanic,
    /// keep adding lines until killed
    Forever,
}

/// Runs in a child process.
pub fn child(script: &str) -> ! {
    use std::io::Write;
    let ops: Vec<FOp> = serde_json::from_str(script).expect("script");
    let out = |s: String| {
        let b = format!("{}\n", s);
        unsafe {
            libc::write(1, b.as_ptr() as *const _, b.len());
        }
    };
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let mut h: Option<History> = None;
    for (i, op) in ops.into_iter().enumerate() {
        out(format!("start {}", i));
        let r = match op {
            FOp::Load(p) => match History::from_file(fname(&p)) {
                Ok(x) => {
                    let n = serde_json::to_string(x.get_lines()).unwrap();
                    h = Some(x);
                    format!("ok {}", n)
                }
                Err(e) => format!("error {}", e),
            },
            FOp::Add(l) => match h.as_mut().map(|h| h.add_line(l)) {
                Some(Ok(())) => "ok".into(),
                Some(Err(e)) => format!("error {}", e),
                None => "none".into(),
            },
            FOp::Interval(n) => {
                if let Some(h) = h.as_mut() {
                    h.set_autosave_interval(n.and_then(NonZeroUsize::new));
                }
                "ok".into()
            }
            FOp::Limit(n) => {
                if let Some(h) = h.as_mut() {
                    h.set_limit(n.and_then(NonZeroUsize::new));
                }
                "ok".into()
            }
            FOp::Drop => {
                h = None;
                "ok".into()
            }
            FOp::DropPanic => {
                if let Some(h) = h.take() {
                    unwound(h);
                }
                "ok".into()
            }
            FOp::Forever => {
                for k in 0.. {
                    let r = h.as_mut().map(|h| h.add_line(format!("line {} {}", k, "x".repeat(k % 700))));
                    out(format!("{} {}", k, matches!(r, Some(Ok(())))));
                }
                unreachable!()
            }
        };
        out(format!("end {} {}", i, r));
    }
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(if h.is_some() { 3 } else { 0 }) }
}

struct Run {
    /// started, ended (with result)
    ops: Vec<(bool, Option<String>)>,
    log: Vec<String>,
    raw: String,
}
fn run_child(dir: &Path, ops: &[FOp], plan: &str, fsize: Option<u64>) -> R<Run> {
    run_child_at(dir, ops, plan, fsize, false)
}
/// `reads`: the plan is for the operations that read
fn run_child_at(dir: &Path, ops: &[FOp], plan: &str, fsize: Option<u64>, reads: bool) -> R<Run> {
    let so = shim()?;
    let log = dir.join("log.shim");
    let _ = std::fs::remove_file(&log);
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("hist")
        .arg(serde_json::to_string(ops).unwrap())
        .current_dir(dir)
        .env("LD_PRELOAD", so)
        .env("SHIM_PLAN", plan)
        .env("SHIM_LOG", &log)
        .env("SHIM_NAME", "hist")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    if reads {
        cmd.env("SHIM_READS", "1");
    }
    if let Some(n) = fsize {
        unsafe {
            cmd.pre_exec(move || {
                let r = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &r);
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                Ok(())
            });
        }
    }
    let mut ch = cmd.spawn().map_err(|e| Fail::Infra(format!("spawn: {}", e)))?;
    let mut out = String::new();
    ch.stdout.take().unwrap().read_to_string(&mut out).map_err(|e| Fail::Infra(format!("{}", e)))?;
    let mut err = String::new();
    let _ = ch.stderr.take().unwrap().read_to_string(&mut err);
    let st = ch.wait().map_err(|e| Fail::Infra(format!("{}", e)))?;
    use std::os::unix::process::ExitStatusExt;
    if err.contains("panicked") || st.signal().is_some() {
        bail!("history code died: {:?} {}", st, trunc(&err, 500));
    }
    let mut r = vec![(false, None); ops.len()];
    for l in out.lines() {
        let mut f = l.splitn(3, ' ');
        let (k, i, res) = (f.next().unwrap_or(""), f.next().unwrap_or(""), f.next().unwrap_or(""));
        let Ok(i) = i.parse::<usize>() else { return Err(Fail::Infra(format!("child wrote {:?}", l))) };
        if k == "start" {
            r[i].0 = true;
        } else {
            r[i].1 = Some(res.to_string());
        }
    }
    let log = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).lines().map(|x| x.to_string()).collect();
    Ok(Run { ops: r, log, raw: out })
}

/// What may be on disk: each entry is one possible complete content.
#[derive(Clone, Debug)]
struct Disk {
    ok: Vec<Vec<String>>,
}
/// Follows a run of the child; gives the contents that are acceptable
/// afterwards.
/// `one`: there was a single error; whatever comes after it has been reported is
/// undisturbed.
fn follow(ops: &[FOp], run: &Run, disk: &Disk, mut faulty: bool, one: bool) -> R<(Disk, u64)> {
    let mut ok = disk.ok.clone();
    let mut m: Option<HM> = None;
    let mut interval = None;
    let mut count = 0;
    let mut unsaved = false;
    let mut saves = 0;
    for (op, (started, res)) in ops.iter().zip(&run.ops) {
        if !started {
            break;
        }
        match op {
            FOp::Load(_) => match res.as_deref() {
                Some(r) if r.starts_with("ok ") => {
                    let l: Vec<String> = serde_json::from_str(&r[3..]).map_err(|e| Fail::Infra(format!("{}", e)))?;
                    ensure!(ok.contains(&l), "loaded {:?}, should be one of {:?}", l, ok);
                    ok = vec![l.clone()];
                    let mut x = HM::new();
                    x.lines = l;
                    m = Some(x);
                    count = 0;
                    interval = None;
                    unsaved = false;
                }
                Some(r) => {
                    // (an error while reading may be reported)
                    ensure!(faulty, "loading gives {}", r);
                    faulty &= !one;
                    m = None;
                }
                None => break,
            },
            FOp::Interval(n) => {
                interval = *n;
                count = 0;
            }
            FOp::Limit(n) => {
                if let Some(m) = m.as_mut() {
                    m.limit = *n;
                }
            }
            FOp::Add(l) => {
                let Some(m) = m.as_mut() else { continue };
                m.add(l);
                unsaved = true;
                let mut due = false;
                if let Some(i) = interval {
                    count += 1;
                    if count >= i {
                        due = true;
                        count = 0;
                    }
                }
                if due {
                    saves += 1;
                    match res.as_deref() {
                        Some("ok") => {
                            ok = vec![m.lines.clone()];
                            unsaved = false;
                        }
                        Some(e) => {
                            ensure!(faulty, "saving gives {}", e);
                            faulty &= !one;
                            ok.push(m.lines.clone());
                        }
                        None => ok.push(m.lines.clone()),
                    }
                } else {
                    ensure!(res.as_deref() == Some("ok") || (faulty && res.is_none()), "adding a line gives {:?}", res);
                }
            }
            FOp::Drop | FOp::DropPanic => {
                if let Some(m) = m.take() {
                    if unsaved {
                        saves += 1;
                        if faulty {
                            ok.push(m.lines.clone());
                        } else {
                            ok = vec![m.lines.clone()];
                        }
                    }
                }
            }
            FOp::Forever => {}
        }
        if res.is_none() {
            break;
        }
    }
    Ok((Disk { ok }, saves))
}
fn load_now(dir: &Path, name: &str) -> R<Vec<String>> {
    match History::from_file(dir.join(fname(name))) {
        Ok(h) => Ok(h.get_lines().to_vec()),
        Err(e) => bail!("loading the history fails: {}", e),
    }
}
fn list(dir: &Path) -> String {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .map(|d| {
            d.flatten()
                .map(|e| {
                    let b = std::fs::read(e.path()).unwrap_or_default();
                    format!("{:?}: {:?}", e.file_name(), trunc(&String::from_utf8_lossy(&b), 200))
                })
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v.retain(|x| !x.contains("log.shim"));
    v.join(", ")
}

#[derive(Clone, Debug)]
struct Script {
    name: String,
    init: Vec<(String, Vec<u8>)>,
    disk: Vec<String>,
    ops: Vec<FOp>,
}
fn uniq(r: &mut Rng, k: &mut usize, big: bool) -> String {
    *k += 1;
    let n = if big { r.below(3000) } else { r.below(12) };
    let mut t: String = (0..n).map(|_| gchar(r, TextCfg { wide: true, zw: false, ctl: false, nl: false, ascii: false }, false)).collect();
    t.push_str(&format!("#{}", k));
    t
}
fn gsession(r: &mut Rng, name: &str, k: &mut usize) -> Vec<FOp> {
    let mut ops = vec![FOp::Load(name.into())];
    let big = r.chance(1, 5);
    if r.chance(2, 3) {
        ops.push(FOp::Interval(Some(r.range(1, 3))));
    }
    if r.chance(1, 3) {
        ops.push(FOp::Limit(Some(r.range(1, 6))));
    }
    for _ in 0..r.range(1, 5) {
        ops.push(FOp::Add(uniq(r, k, big)));
    }
    if r.chance(4, 5) {
        ops.push(if r.chance(1, 5) { FOp::DropPanic } else { FOp::Drop });
    }
    ops
}
fn gscript(r: &mut Rng, k: &mut usize) -> Script {
    let name = r.pick(&["hist", "hist.txt", "hist ory", "hist日本", "hist.a.b", "hist\u{f8ff}x", ".hist", "hist~", "\u{f8ff}^"]).to_string();
    let mut init = vec![];
    let mut disk = vec![];
    let bytes = |l: &[String]| l.iter().map(|x| format!("{}\n", x)).collect::<String>().into_bytes();
    if r.chance(3, 4) {
        for _ in 0..r.range(1, 5) {
            let big = r.chance(1, 8);
            disk.push(uniq(r, k, big));
        }
        // (or it was an older version's save that was interrupted: the file is
        // not there, or empty)
        if r.chance(1, 5) {
            init.push((format!("{}~", name), bytes(&disk)));
            if r.chance(1, 2) {
                init.push((name.clone(), vec![]));
            }
        } else {
            init.push((name.clone(), bytes(&disk)));
        }
    }
    let recovered = init.len() > 1 || init.first().map_or(false, |x| x.0 != name);
    // left over from a crash: the file being written
    if r.chance(1, 3) {
        let x: Vec<String> = (0..r.range(1, 6)).map(|_| uniq(r, k, false)).collect();
        let mut b = bytes(&x);
        b.truncate(r.below(b.len() + 1));
        while std::str::from_utf8(&b).is_err() {
            b.pop();
        }
        init.push((format!("{}^", name), b));
    }
    // left over from an interrupted save by an older version
    if !disk.is_empty() && !recovered && r.chance(1, 4) {
        let x: Vec<String> = (0..r.range(1, 6)).map(|_| uniq(r, k, false)).collect();
        init.push((format!("{}~", name), bytes(&x)));
    }
    let ops = gsession(r, &name, k);
    Script { name, init, disk, ops }
}
fn fresh(s: &Script) -> Dir {
    let d = Dir(case_dir());
    for (n, b) in &s.init {
        std::fs::write(d.0.join(fname(n)), b).expect("write");
    }
    d
}
/// The faults that can be put at an operation that was logged.
fn faults_for(l: &str, k: usize) -> Vec<String> {
    let op = l.split(' ').nth(1).unwrap_or("");
    let mut v = vec![format!("{}:crash", k), format!("{}:crashafter", k)];
    let errs: &[i32] = match op {
        "open" => &[libc::EACCES, libc::EMFILE],
        "write" => &[libc::ENOSPC, libc::EIO],
        "rename" => &[libc::EACCES, libc::EIO],
        _ => &[libc::EIO],
    };
    for e in errs {
        v.push(format!("{}:err:{}", k, e));
    }
    if op == "write" {
        v.push(format!("{}:partcrash", k));
        v.push(format!("{}:short", k));
        v.push(format!("{}:short,{}:err:{}", k, k + 1, libc::ENOSPC));
        v.push(format!("{}:one,{}:crash", k, k + 1));
        v.push(format!("{}:err:{}", k, libc::EINTR));
    }
    v
}
fn is_harmless(p: &str) -> bool {
    // nothing is lost: the save has to succeed
    p.ends_with(":short") || p.ends_with(&format!(":err:{}", libc::EINTR))
}

fn one_fault(c: &mut Ctx, s: &Script, plan: &str, fsize: Option<u64>, nested: bool, k: &mut usize) -> R<()> {
    let d = fresh(s);
    let faulty = !is_harmless(plan) || fsize.is_some();
    let one = fsize.is_none() && plan.matches(':').count() == 2 && plan.contains(":err:");
    let what = |r: &Run, d: &Path| {
        format!("\n  plan {:?} fsize {:?}\n  script {:?}\n  results {:?}\n  operations {:?}\n  files {}", plan, fsize, trunc(&format!("{:?}", s), 1500), trunc(&r.raw, 600), r.log, list(d))
    };
    let run = run_child(&d.0, &s.ops, plan, fsize)?;
    let wrap = |e: Fail, r: &Run, d: &Path| match e {
        Fail::Viol(m) => Fail::Viol(format!("{}{}", m, what(r, d))),
        x => x,
    };
    let (disk, _) = follow(&s.ops, &run, &Disk { ok: vec![s.disk.clone()] }, faulty, one).map_err(|e| wrap(e, &run, &d.0))?;
    let now = load_now(&d.0, &s.name).map_err(|e| wrap(e, &run, &d.0))?;
    ensure!(disk.ok.contains(&now), "the history now is {:?}, should be one of {:?}{}", trunc(&format!("{:?}", now), 600), trunc(&format!("{:?}", disk.ok), 1500), what(&run, &d.0));
    c.count("faults_injected", 1);
    c.count("operations_seen", run.log.len() as u64);
    c.sig(&format!("{:?} {} {:?}", run.log, plan, disk.ok.iter().position(|x| *x == now)));
    let mut disk = Disk { ok: vec![now] };
    // a second interrupted session after the first
    if nested {
        let ops = gsession(&mut c.rng, &s.name, k);
        // how many operations will it have? enough guesses do
        let n = c.rng.range(1, 12);
        let kind = *c.rng.pick(&["crash", "crashafter", "err:28", "partcrash", "short"]);
        let plan2 = format!("{}:{}", n, kind);
        let run2 = run_child(&d.0, &ops, &plan2, None)?;
        let w2 = |m: String| format!("{}\n  (then plan {} script {:?} results {:?} operations {:?})", m, plan2, ops, run2.raw, run2.log);
        let re = |e| match e {
            Fail::Viol(m) => Fail::Viol(w2(format!("{}{}", m, what(&run, &d.0)))),
            x => x,
        };
        let (d2, _) = follow(&ops, &run2, &disk, true, kind == "err:28").map_err(re)?;
        let now = load_now(&d.0, &s.name).map_err(re)?;
        ensure!(d2.ok.contains(&now), "the history now is {:?}, should be one of {:?}{}", now, d2.ok, w2(what(&run, &d.0)));
        c.count("faults_injected", 1);
        disk = Disk { ok: vec![now] };
    }
    // whatever happened, the next session works and is saved
    let mut ops = vec![FOp::Load(s.name.clone())];
    for _ in 0..c.rng.range(1, 3) {
        ops.push(FOp::Add(uniq(&mut c.rng, k, false)));
    }
    ops.push(FOp::Drop);
    let run3 = run_child(&d.0, &ops, "", None)?;
    let re = |e| match e {
        Fail::Viol(m) => Fail::Viol(format!("(undisturbed session after faults) {} results {:?}{}", m, run3.raw, what(&run, &d.0))),
        x => x,
    };
    let (d3, _) = follow(&ops, &run3, &disk, false, false).map_err(re)?;
    let now = load_now(&d.0, &s.name).map_err(re)?;
    ensure!(d3.ok.contains(&now), "after an undisturbed session the history is {:?}, should be {:?}; results {:?}{}", now, d3.ok, run3.raw, what(&run, &d.0));
    Ok(())
}

fn s_faults(c: &mut Ctx) -> R<()> {
    let mut k = 0;
    let s = gscript(&mut c.rng, &mut k);
    // undisturbed
    let d = fresh(&s);
    let run = run_child(&d.0, &s.ops, "", None)?;
    let (disk, saves) = follow(&s.ops, &run, &Disk { ok: vec![s.disk.clone()] }, false, false)?;
    let now = load_now(&d.0, &s.name)?;
    ensure!(disk.ok.len() == 1 && disk.ok[0] == now, "without any fault the history is {:?}, should be {:?}\n  script {:?}\n  operations {:?}\n  files {}", now, disk.ok, s, run.log, list(&d.0));
    c.count("undisturbed_saves", saves);
    c.sample(|| format!("{:?} -> {:?}", s.ops, run.log));
    if saves > 0 && !run.log.iter().any(|l| l.contains("write")) {
        return Err(Fail::Infra("the file operations of a save were not seen".into()));
    }
    drop(d);
    for (i, l) in run.log.iter().enumerate() {
        for p in faults_for(l, i + 1) {
            let nested = c.rng.chance(1, if c.thorough { 2 } else { 4 });
            one_fault(c, &s, &p, None, nested, &mut k)?;
        }
    }
    // a file size limit of the system's own
    for _ in 0..3 {
        let max = if c.rng.chance(1, 2) { 40 } else { 3000 };
        let lim = c.rng.below(max) as u64;
        one_fault(c, &s, "", Some(lim), false, &mut k)?;
    }
    Ok(())
}
/// Operations that fail while the history is loaded: it must not come up with
/// fewer lines than there are (they would be lost with the next save).
fn s_loads(c: &mut Ctx) -> R<()> {
    let mut k = 0;
    let mut s = gscript(&mut c.rng, &mut k);
    s.ops = vec![FOp::Load(s.name.clone())];
    if c.rng.chance(1, 2) {
        s.ops.push(FOp::Interval(Some(c.rng.range(1, 3))));
    }
    for _ in 0..c.rng.range(1, 3) {
        s.ops.push(FOp::Add(uniq(&mut c.rng, &mut k, false)));
    }
    s.ops.push(FOp::Drop);
    let d = fresh(&s);
    let run = run_child_at(&d.0, &s.ops, "", None, true)?;
    drop(d);
    if run.log.is_empty() {
        return Err(Fail::Infra("the file operations of a load were not seen".into()));
    }
    let mut plans = vec![];
    for (i, l) in run.log.iter().enumerate() {
        let errs: &[i32] = match l.split(' ').nth(1).unwrap_or("") {
            "open" => &[libc::EACCES, libc::EMFILE, libc::EINTR],
            "read" => &[libc::EIO, libc::EINTR],
            _ => &[],
        };
        for e in errs {
            plans.push(format!("{}:err:{}", i + 1, e));
        }
        if l.contains("read") {
            plans.push(format!("{}:short", i + 1));
            plans.push(format!("{}:one", i + 1));
            plans.push(format!("{}:short,{}:err:{}", i + 1, i + 2, libc::EIO));
        }
    }
    for p in plans {
        let d = fresh(&s);
        let faulty = !is_harmless(&p) && !p.ends_with(":one");
        let run = run_child_at(&d.0, &s.ops, &p, None, true)?;
        let re = |e| match e {
            Fail::Viol(m) => Fail::Viol(format!("{}\n  reading with plan {:?}\n  script {:?}\n  results {:?}\n  operations {:?}\n  files {}", m, p, trunc(&format!("{:?}", s), 1500), trunc(&run.raw, 600), run.log, list(&d.0))),
            x => x,
        };
        let (disk, _) = follow(&s.ops, &run, &Disk { ok: vec![s.disk.clone()] }, faulty, true).map_err(re)?;
        let now = load_now(&d.0, &s.name).map_err(re)?;
        let ok = disk.ok.contains(&now);
        (|| {
            ensure!(ok, "the history now is {:?}, should be one of {:?}", trunc(&format!("{:?}", now), 600), trunc(&format!("{:?}", disk.ok), 1500));
            Ok(())
        })()
        .map_err(re)?;
        c.count("reading_faults_injected", 1);
        c.sig(&format!("{} {:?} {:?}", p, run.log, run.raw.lines().nth(1)));
    }
    Ok(())
}
/// Two faults in one session.
fn s_pairs(c: &mut Ctx) -> R<()> {
    let mut k = 0;
    let mut s = gscript(&mut c.rng, &mut k);
    s.ops = vec![FOp::Load(s.name.clone()), FOp::Interval(Some(1))];
    for _ in 0..3 {
        s.ops.push(FOp::Add(uniq(&mut c.rng, &mut k, false)));
    }
    s.ops.push(FOp::Drop);
    let d = fresh(&s);
    let run = run_child(&d.0, &s.ops, "", None)?;
    drop(d);
    let mut all = vec![];
    for (i, l) in run.log.iter().enumerate() {
        for p in faults_for(l, i + 1) {
            if p.contains("crash") || p.contains(',') {
                continue;
            }
            for j in i + 2..run.log.len() + 4 {
                for q in ["crash", "crashafter", "err:28", "partcrash"] {
                    all.push(format!("{},{}:{}", p, j, q));
                }
            }
        }
    }
    c.rng.shuffle(&mut all);
    let n = if c.thorough { all.len().min(400) } else { 60 };
    for p in &all[..n.min(all.len())] {
        one_fault(c, &s, p, None, false, &mut k)?;
    }
    Ok(())
}
/// Killed by the system at any moment.
fn s_kill(c: &mut Ctx) -> R<()> {
    let d = Dir(case_dir());
    let mut ok: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..4 {
        let lim = c.rng.range(3, 60);
        let ops = vec![FOp::Load("hist".into()), FOp::Interval(Some(1)), FOp::Limit(Some(lim)), FOp::Forever];
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .arg("hist")
            .arg(serde_json::to_string(&ops).unwrap())
            .current_dir(&d.0)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| Fail::Infra(format!("{}", e)))?;
        let us = c.rng.range(1500, 25000) as u64;
        let so = ch.stdout.take().unwrap();
        let rd = std::thread::spawn(move || {
            let mut s = String::new();
            let mut so = so;
            let _ = so.read_to_string(&mut s);
            s
        });
        std::thread::sleep(Duration::from_micros(us));
        let _ = ch.kill();
        let _ = ch.wait();
        let out = rd.join().unwrap_or_default();
        let Some(i) = out.find("end 0 ok ") else { continue };
        let l0: Vec<String> = serde_json::from_str(out[i + 9..].lines().next().unwrap_or("")).map_err(|e| Fail::Infra(format!("{}", e)))?;
        ensure!(ok.contains(&l0), "loaded {:?}, should be one of {:?}", l0, ok);
        let mut done = 0;
        if let Some(j) = out.find("start 3\n") {
            for l in out[j + 8..].lines() {
                let w: Vec<&str> = l.split(' ').collect();
                if w.len() == 2 && w[1] == "true" {
                    done = w[0].parse::<usize>().unwrap_or(0) + 1;
                } else {
                    ensure!(w.len() != 2 || w[1] != "false", "a save failed");
                }
            }
        }
        let mut m = HM::new();
        m.lines = l0.clone();
        m.limit = Some(lim);
        let mut acc = vec![l0.clone()];
        for k in 0..done + 1 {
            m.add(&format!("line {} {}", k, "x".repeat(k % 700)));
            acc.push(m.lines.clone());
        }
        // saved: that many; being saved: one more
        let acc = acc[acc.len() - 2..].to_vec();
        let now = load_now(&d.0, "hist")?;
        ensure!(acc.contains(&now), "killed after {} saves, the history has {} lines, not those of save {} or {}:\n  {:?}\n  {:?}\n  files {}", done, now.len(), done, done + 1, now, acc, list(&d.0));
        c.count("kills", 1);
        c.count("saves_before_kill", done as u64);
        c.sig(&format!("{} {}", done, acc[0] == now));
        ok = vec![now];
    }
    Ok(())
}

pub fn c09() -> Check {
    Check {
        id: "C09",
        level: "fault_enumeration",
        rule: "generated saving sessions; every file operation they perform (seen by an interposed library) is in turn made a crash (before, after, in the middle of a write), an error and a short write, pairs of these follow one another in one and in two sessions, each followed by loading and by an undisturbed session; plus the system's own file size limit and SIGKILL at random moments; distinct by operations, fault and outcome",
        assumptions: vec!["process crashes, not power failures (nothing is promised about fsync)", "lines hold no line breaks"],
        scens: vec![
            scen("faults", 350, s_faults),
            scen("pairs", 70, s_pairs),
            scen("loads", 120, s_loads),
            scen("kill", 250, s_kill).racy(),
        ],
    }
}
