//! C24: sanitizers, descriptors and signal handlers.
use super::life::*;
use super::vt52::*;
use super::*;
use std::path::PathBuf;
use std::sync::{Mutex, OnceLock};

/// Bytes that do no harm if the terminal happens to be in cooked mode.
fn typing(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        match r.below(10) {
            0 => v.push(b'\r'),
            1 => v.push(b'\t'),
            2 => v.extend_from_slice(*r.pick(&[&b"\x1b[A"[..], b"\x1b[B", b"\x1b[C", b"\x1b[D", b"\x1b[H", b"\x1b[F", b"\x1bOA", b"\x1b[3~"])),
            3 => v.push(*r.pick(&[1u8, 2, 5, 6, 7, 11, 12, 14, 16, 20, 21, 23, 24, 8])),
            4 => v.extend_from_slice("é漢".as_bytes()),
            _ => v.push(b'a' + r.below(26) as u8),
        }
    }
    v
}
fn act(r: &mut Rng, t: usize, i: usize, pipe: bool) -> TOp {
    let l = ML::plain(format!("t{}:{:03}", t, i));
    match r.below(20) {
        0..=4 => TOp::Print(l),
        5 => TOp::Wrap(ML::plain(format!("t{}:{:03} some words to be wrapped at a narrow place", t, i))),
        6 => TOp::Echo(l),
        7 => TOp::GlobalPrint(l),
        8 => TOp::Status(if r.chance(1, 3) { None } else { Some(l) }),
        9 => TOp::Prompt(l, r.chance(3, 4), r.chance(1, 3)),
        10 => TOp::Notice(l, *r.pick(&[0, 1, 2, 5, 1000])),
        11 => TOp::Bell,
        12 => TOp::Custom(i as u64),
        13 => TOp::CustomBox(i as u64),
        14 => TOp::SleepUs(r.below(600) as u64),
        15 => {
            let mut a = vec![];
            if r.chance(1, 2) {
                a.push(SAct::Log("x".into()));
            }
            if r.chance(1, 3) && !pipe {
                a.push(SAct::Termios);
            }
            if r.chance(1, 3) {
                a.push(SAct::Print("from inside".into()));
            }
            if r.chance(1, 3) {
                a.push(SAct::Out("own\n".into()));
            }
            TOp::Suspend(a)
        }
        16 | 17 => TOp::Stderr(format!("e{}:{}\n", t, i)),
        18 => TOp::TryNew,
        _ => TOp::Yield,
    }
}
fn hist(r: &mut Rng) -> HistSpec {
    HistSpec {
        lines: (0..r.below(5)).map(|i| format!("old {}", i)).collect(),
        limit: if r.chance(1, 2) { Some(r.range(1, 6)) } else { None },
        strip: r.chance(1, 2),
        file: None,
        interval: None,
        failing_autosave: r.chance(1, 4),
    }
}
fn completions(r: &mut Rng) -> Vec<CompAct> {
    (0..20)
        .map(|i| match r.below(4) {
            0 => CompAct::PrintThen(format!("c{}", i), CompAns::Insert("x".into())),
            1 => CompAct::NoticeThen(format!("c{}", i), 3, CompAns::None),
            2 => CompAct::Ans(CompAns::Replace("new".into(), 1)),
            _ => CompAct::Ans(CompAns::None),
        })
        .collect()
}
/// An instance is created, used from all sides at once, and shut down while
/// that goes on.
fn one_round(c: &mut Ctx, s: &mut Sess, pipe: bool) -> R<()> {
    s.call(Cmd::New)?;
    if c.rng.chance(2, 3) {
        s.call(Cmd::Sleep(3))?;
    }
    one_use(c, s, pipe)
}
fn one_use(c: &mut Ctx, s: &mut Sess, pipe: bool) -> R<()> {
    if c.rng.chance(1, 2) {
        let a = completions(&mut c.rng);
        s.call(Cmd::SetCompletor(1, a))?;
    }
    if c.rng.chance(1, 2) {
        let h = hist(&mut c.rng);
        s.call(Cmd::SwapHistory(h))?;
    }
    let n = c.rng.range(1, 4);
    let progs: Vec<Vec<TOp>> =
        (0..n).map(|t| (0..c.rng.range(5, 60)).map(|i| act(&mut c.rng, t, i, pipe)).collect()).collect();
    c.sig(&format!("{:?}", progs));
    c.count("thread_operations", progs.iter().map(|p| p.len() as u64).sum());
    s.call(Cmd::Spawn(progs, c.rng.chance(1, 2)))?;
    for k in 0..c.rng.below(12) {
        match c.rng.below(8) {
            0 => {
                let l = ML::plain(format!("main {}", k));
                s.call(Cmd::Print(Via::Io, l))?;
            }
            1 => {
                s.call(Cmd::HistoryLines)?;
            }
            2 => {
                let h = hist(&mut c.rng);
                s.call(Cmd::SwapHistory(h))?;
            }
            3 => {
                s.call(Cmd::Read(ReadMode::Timeout(c.rng.below(800) as u64)))?;
            }
            4 => {
                s.call(Cmd::Read(ReadMode::AsyncTimeout(c.rng.below(800) as u64)))?;
            }
            5 => {
                s.call(Cmd::Drain)?;
            }
            6 if c.rng.chance(1, 4) => {
                s.call(Cmd::RemoveCompletor)?;
            }
            _ => {
                let n = c.rng.range(1, 12);
                let b = typing(&mut c.rng, n);
                s.write_in(&b)?;
            }
        }
    }
    if c.rng.chance(1, 2) {
        s.call(Cmd::Sleep(c.rng.below(3) as u64))?;
    }
    let how = die_cmd(&mut c.rng);
    match s.call_t(how, Duration::from_secs(40))? {
        Some(r) => {
            if let Some(p) = r.panic {
                return Err(Fail::Soft(format!("panic while shutting down: {}", p)));
            }
        }
        None => return Err(s.stuck("shutting down does not come back")),
    }
    s.call(Cmd::Join)?;
    c.count("instances", 1);
    Ok(())
}
fn conf(r: &mut Rng) -> (Opts, bool) {
    match r.below(6) {
        0 => (Opts { plain_tty: true, ..Opts::pipes(40, 10) }, true),
        1 => (Opts { plain_tty: true, stdout_pipe: true, ..Opts::new(40, 10) }, true),
        2 => (opts52(r), false),
        _ => {
            let (w, h) = gsize(r);
            (Opts { stderr_tty: r.chance(1, 2), ..Opts::new(w, h) }, false)
        }
    }
}

fn s_fds(c: &mut Ctx) -> R<()> {
    let (o, pipe) = conf(&mut c.rng);
    let mut o = o;
    if let (Ok(b), true) = (std::env::var("LISOMON_STDERR"), c.rng.chance(1, 2)) {
        o.bin = PathBuf::from(b);
        o.stderr_tty |= c.rng.chance(2, 3) && !pipe;
        c.count("sessions_with_capture", 1);
    }
    o.chaos = Some(if c.rng.chance(1, 5) {
        (1, 0, 0)
    } else {
        (c.rng.next(), *c.rng.pick(&[3, 10, 40]), *c.rng.pick(&[50, 300, 1500]))
    });
    let mut s = Sess::start(o)?;
    s.call(Cmd::InstallHup)?;
    let sigs = s.call(Cmd::Dispositions)?.lines;
    let fds = s.call(Cmd::FdIds)?.lines;
    let who = s.call(Cmd::Fds012)?.lines;
    s.call(Cmd::FdGuard(true))?;
    for _ in 0..c.rng.range(1, 4) {
        one_round(c, &mut s, pipe)?;
        let w2 = s.call(Cmd::Fds012)?.lines;
        ensure!(who == w2, "standard descriptors {:?}, were {:?}", w2, who);
        let now = s.call(Cmd::Dispositions)?.lines;
        for (a, b) in sigs.iter().zip(&now) {
            ensure!(a == b, "signal disposition {:?} after shutting down, was {:?}", b, a);
        }
        s.fd_check()?;
    }
    let g = s.call(Cmd::FdGuard(false))?;
    ensure!(g.lines.is_empty(), "descriptors: {:?}", g.lines);
    c.count("descriptors_guarded", g.us);
    let end = Instant::now() + Duration::from_secs(3);
    while s.threads() > 1 && Instant::now() < end {
        std::thread::sleep(Duration::from_millis(2));
    }
    ensure!(s.threads() == 1, "{} threads are left", s.threads());
    let f2 = s.call(Cmd::FdIds)?.lines;
    ensure!(fds == f2, "descriptors {:?}, were {:?}", f2, fds);
    s.fd_check()?;
    Ok(())
}

/// Terminal gone, or callbacks that panic: still nothing that is not open is
/// closed or used.
fn s_faults(c: &mut Ctx) -> R<()> {
    let (o, pipe) = conf(&mut c.rng);
    let mut o = o;
    o.stderr_tty = false;
    o.chaos = Some((c.rng.next(), *c.rng.pick(&[3, 10, 40]), *c.rng.pick(&[50, 300, 1500])));
    let mut s = Sess::start(o)?;
    s.call(Cmd::FdGuard(true))?;
    s.call(Cmd::New)?;
    s.call(Cmd::Sleep(3))?;
    let how = c.rng.below(3);
    let n = c.rng.range(1, 3);
    let progs: Vec<Vec<TOp>> =
        (0..n).map(|t| (0..c.rng.range(1, 30)).map(|i| act(&mut c.rng, t, i, pipe)).collect()).collect();
    c.sig(&format!("{} {:?}", how, progs));
    s.call(Cmd::Spawn(progs, false))?;
    match how {
        0 => {
            // SIGHUP must not end the process: it has a handler
            s.call(Cmd::InstallHup)?;
            s.hangup();
            s.in_w = None;
            s.out_r = None;
        }
        1 => {
            s.call(Cmd::Suspend(vec![SAct::Panic("oops".into())]))?;
        }
        _ => {
            s.call(Cmd::SetCompletor(1, vec![CompAct::Panic("oops".into())]))?;
            if !pipe {
                s.write_in(b"a\t")?;
            }
        }
    }
    s.call(Cmd::Sleep(c.rng.below(3) as u64))?;
    match s.call_t(Cmd::Drop, Duration::from_secs(20))? {
        Some(_) => {}
        None => return Err(s.stuck("shutting down does not come back")),
    }
    s.call(Cmd::Join)?;
    let g = s.call(Cmd::FdGuard(false))?;
    ensure!(g.lines.is_empty(), "descriptors: {:?}", g.lines);
    c.count("descriptors_guarded", g.us);
    s.fd_check()?;
    c.count(["hangups", "panics_in_function", "panics_in_completor"][how], 1);
    Ok(())
}

/// Standard error is to be captured while (almost) no descriptor can be had.
fn s_starved(c: &mut Ctx) -> R<()> {
    let Ok(b) = std::env::var("LISOMON_STDERR") else {
        c.count("capture_unavailable", 1);
        c.nontrivial = false;
        return Ok(());
    };
    let (w, h) = gsize(&mut c.rng);
    let mut o = Opts { stderr_tty: true, bin: PathBuf::from(b), ..Opts::new(w.max(20), h) };
    o.chaos = Some(if c.rng.chance(1, 2) { (1, 0, 0) } else { (c.rng.next(), 10, 300) });
    let mut s = Sess::start(o)?;
    let fds = s.call(Cmd::FdIds)?.lines;
    let who = s.call(Cmd::Fds012)?.lines;
    for _ in 0..c.rng.range(1, 4) {
        let k = c.rng.below(5) as u32;
        c.sig(&format!("{}", k));
        s.call(Cmd::Starve(Some(k)))?;
        s.call(Cmd::New)?;
        s.sync()?;
        s.call(Cmd::Starve(None))?;
        one_use(c, &mut s, false)?;
        let w2 = s.call(Cmd::Fds012)?.lines;
        ensure!(who == w2, "standard descriptors {:?}, were {:?}", w2, who);
        s.fd_check()?;
        c.count("starved_instances", 1);
    }
    let end = Instant::now() + Duration::from_secs(3);
    while s.threads() > 1 && Instant::now() < end {
        std::thread::sleep(Duration::from_millis(2));
    }
    let now = s.call(Cmd::FdIds)?.lines;
    ensure!(now == fds, "descriptors {:?}, were {:?}", now, fds);
    s.fd_check()?;
    Ok(())
}

/// The program with a sanitizer built in, if that works here.
fn sanitized(var: &'static str) -> Option<PathBuf> {
    static S: OnceLock<Mutex<std::collections::BTreeMap<&'static str, Option<PathBuf>>>> = OnceLock::new();
    let mut m = S.get_or_init(|| Mutex::new(Default::default())).lock().unwrap();
    m.entry(var)
        .or_insert_with(|| {
            let p = PathBuf::from(std::env::var(var).ok()?);
            // (a thread is created and ended)
            let o = std::process::Command::new(&p).arg("probe").output().ok()?;
            let ok = o.status.code() == Some(0) && o.stdout == b"probed\n";
            if !ok {
                eprintln!("{} does not work here: {:?}", p.display(), trunc(&String::from_utf8_lossy(&o.stderr), 500));
            }
            ok.then_some(p)
        })
        .clone()
}
fn under(c: &mut Ctx, var: &'static str, opt: &str, name: &str) -> R<()> {
    let Some(bin) = sanitized(var) else {
        c.count(&format!("{}_unavailable", name), 1);
        c.nontrivial = false;
        return Ok(());
    };
    let (o, pipe) = conf(&mut c.rng);
    let mut o = o;
    o.bin = bin;
    let log = scratch().join(format!("{}.{:x}", name, c.rng.next()));
    let common = format!("log_path={}:halt_on_error=0:handle_abort=0", log.display());
    o.env.push(("TSAN_OPTIONS".into(), format!("{}:history_size=3", common)));
    o.env.push(("ASAN_OPTIONS".into(), format!("{}:detect_leaks=0", common)));
    let _ = opt;
    let read_log = |pid: i32| {
        let p = PathBuf::from(format!("{}.{}", log.display(), pid));
        let t = std::fs::read_to_string(&p).unwrap_or_default();
        let _ = std::fs::remove_file(&p);
        t
    };
    let mut s = Sess::start(o)?;
    let pid = s.pid;
    let mut r = Ok(());
    for _ in 0..3 {
        r = one_round(c, &mut s, pipe);
        if r.is_err() {
            break;
        }
    }
    if r.is_ok() {
        let _ = s.send(&Cmd::Exit(0));
        s.wait_exit(Duration::from_secs(20));
    }
    drop(s);
    let t = read_log(pid);
    if !t.trim().is_empty() {
        bail!("{}: {}", name, trunc(&t, 4000));
    }
    c.count(&format!("{}_sessions", name), 1);
    r
}
fn s_tsan(c: &mut Ctx) -> R<()> {
    under(c, "LISOMON_TSAN", "TSAN_OPTIONS", "tsan")
}
fn s_asan(c: &mut Ctx) -> R<()> {
    under(c, "LISOMON_ASAN", "ASAN_OPTIONS", "asan")
}

pub fn c24() -> Check {
    Check {
        id: "C24",
        level: "exploration",
        rule: "instances are created, used from several threads, by typing and by all ways of reading at once, and shut down in the middle of that: with ThreadSanitizer and AddressSanitizer built in (standard library included for the former), and with every descriptor operation watched under injected delays while another thread opens and closes descriptors; descriptors, threads and all signal dispositions are compared afterwards. Distinct: by the thread programs",
        assumptions: vec!["sanitizers see the Rust code and intercepted C library calls, not the C library itself"],
        scens: vec![
            scen("fds", 400, s_fds).racy(),
            scen("faults", 300, s_faults).racy(),
            scen("starved", 60, s_starved).racy(),
            scen("tsan", 250, s_tsan).racy(),
            scen("asan", 200, s_asan).racy(),
        ],
    }
}
