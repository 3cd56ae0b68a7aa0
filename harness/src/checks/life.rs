//! C13 shutting down, C14 death and the single instance, C16 suspension, C23
//! panics, C24 sanitizers and descriptors.
use super::vt52::*;
use super::*;

/// ANSI or VT52-type terminal.
fn any_term(r: &mut Rng) -> Opts {
    let mut o = if r.chance(1, 4) {
        opts52(r)
    } else {
        let (w, h) = gsize(r);
        let mut o = Opts::new(w, h);
        o.term = r.pick(&["xterm", "xterm-256color", "linux", "vt100", "screen"]).to_string();
        o
    };
    for i in 0..r.below(4) {
        o.prerows.push(format!("before {}", i));
    }
    perturb(r, o)
}
/// Sometimes with harmless signals interrupting its threads.
pub fn signals(r: &mut Rng, mut o: Opts) -> Opts {
    if r.chance(1, 3) {
        o.signals = r.next() | 1;
    }
    o
}
/// Sometimes with random delays in the library's calls, or signals.
pub fn perturb(r: &mut Rng, o: Opts) -> Opts {
    let mut o = signals(r, o);
    if r.chance(1, 2) {
        o.chaos = Some((r.next(), *r.pick(&[3, 10, 40]), *r.pick(&[50, 300, 1500])));
    }
    o
}
fn kind(o: &Opts) -> &'static str {
    match o.flavor {
        Flavor::Ansi => "ansi",
        Flavor::Vt52 => "vt52",
    }
}
/// A few steps of ordinary use.
fn use_it(c: &mut Ctx, d: &mut Drv, steps: usize, notices: bool) -> R<()> {
    let cfg = UiCfg { styled: c.rng.chance(2, 3), rich: c.rng.chance(1, 2), notices, clear: c.rng.chance(1, 4) };
    for _ in 0..steps {
        if c.rng.chance(1, 2) {
            for _ in 0..c.rng.range(1, 3) {
                let x = next_cmd(&mut c.rng, &d.ui, cfg);
                c.sig(&format!("{:?}", x));
                d.cmd(x)?;
            }
            d.s.sync()?;
        } else {
            let n = *c.rng.pick(&[1, 2, 5, 10]);
            let ks = if d.s.opts.flavor == Flavor::Vt52 {
                keys52(&mut c.rng, &d.ui, n, cfg.clear)
            } else {
                next_keys(&mut c.rng, &d.ui, cfg, n)
            };
            c.sig(&format!("{:?}", ks));
            d.keys(&ks)?;
            d.s.sync()?;
        }
    }
    Ok(())
}
/// Modes of the terminal as they must be when the library doesn't use it.
fn modes_ok(s: &Sess) -> Result<(), String> {
    if s.termios() != s.termios0 {
        return Err(format!("terminal settings are {} instead of {}", s.termios(), s.termios0));
    }
    if !s.vt.visible {
        return Err("the cursor is hidden".into());
    }
    if !s.vt.wrap {
        return Err("line wrap is off".into());
    }
    let ok = match s.opts.flavor {
        Flavor::Ansi => s.vt.attr == Attr::default(),
        Flavor::Vt52 => {
            let (f, b) = pal_attr(Attr::default(), s.opts.pal);
            let m = s.opts.pal.0 - 1;
            !s.vt.inv52 && (s.vt.fg52 & m, s.vt.bg52 & m) == (f & m, b & m)
        }
    };
    if !ok {
        return Err(format!("attributes are not reset: {:?} {} {}", s.vt.attr, s.vt.fg52, s.vt.bg52));
    }
    Ok(())
}
/// The library has handed the terminal back: modes, nothing but the printed
/// lines on the screen, cursor at the start of the next line.
fn given_back(s: &Sess, ui: &Ui) -> Result<(), String> {
    modes_ok(s)?;
    s.compare_opt(ui, false)?;
    let want = (s.base_rows + ui.rows.len(), 0);
    if (s.vt.abs_row(), s.vt.cx) != want {
        return Err(format!(
            "cursor at row {} column {}, should be at row {} column {}\n{}",
            s.vt.abs_row(),
            s.vt.cx,
            want.0,
            want.1,
            s.vt.dump()
        ));
    }
    Ok(())
}
fn settle_given_back(s: &mut Sess, ui: &Ui) -> R<()> {
    let ui = ui.clone();
    s.stats.screens += 1;
    s.settle(Duration::from_millis(1500), move |s| given_back(s, &ui))
}
pub fn die_cmd(r: &mut Rng) -> Cmd {
    match r.below(7) {
        0 | 1 => Cmd::Drop,
        2 | 3 => Cmd::BlockingDie,
        4 | 5 => Cmd::DieAsync,
        _ => Cmd::DieCancel(*r.pick(&[0, 0, 1, 50, 300, 2000])),
    }
}
fn timed(s: &mut Sess, c: Cmd) -> R<Reply> {
    let t = Instant::now();
    let what = format!("{:?}", c);
    let r = s.call(c)?;
    if t.elapsed() > Duration::from_secs(5) {
        return Err(Fail::Soft(format!("{} took {:?}", what, t.elapsed())));
    }
    Ok(r)
}
/// The program uses the terminal itself.
fn own_io(c: &mut Ctx, s: &mut Sess, ui: &mut Ui) -> R<()> {
    s.call(Cmd::StdoutWrite("own output\n".into()))?;
    ui.rows.extend(layout_printed(&ML::plain("own output").chars()[..], Attr::default(), ui.w));
    s.write_in(b"typed\n")?;
    let l = s.call(Cmd::ReadStdinLine)?;
    ensure!(l.lines[0] == "typed\n", "read {:?} from standard input after shutting down", l.lines);
    // (echoed by the terminal driver)
    ui.rows.extend(layout_printed(&ML::plain("typed").chars()[..], Attr::default(), ui.w));
    settle_given_back(s, ui)?;
    c.count("own_io", 1);
    Ok(())
}
/// Go on with a new instance in the same terminal.
fn renew(d: &mut Drv) -> R<()> {
    let (w, h) = (d.ui.w, d.ui.h);
    d.s.base_rows = d.s.vt.abs_row();
    d.s.opts.prerows.clear();
    d.ui = Ui::new(w, h);
    d.want.clear();
    d.s.call(Cmd::New)?;
    d.s.call(Cmd::SetClone)?;
    d.s.sync()?;
    Ok(())
}

// ------------------------------------------------------------------- C13

fn s_shut(c: &mut Ctx) -> R<()> {
    let o = any_term(&mut c.rng);
    c.count(&format!("sessions_{}", kind(&o)), 1);
    let mut d = Drv::start(o)?;
    d.s.call(Cmd::SetClone)?;
    d.s.call(Cmd::InstallHup)?;
    let mut first: Option<(usize, Vec<String>)> = None;
    for round in 0..4 {
        let n = *c.rng.pick(&[0, 0, 1, 3, 8]);
        use_it(c, &mut d, n, true)?;
        // something may be going on just then
        match c.rng.below(6) {
            0 if d.ui.ed.allowed => {
                // (an escape sequence that is not complete)
                let b: &[u8] = if d.s.opts.flavor == Flavor::Vt52 { b"\x1b/" } else { b"\x1b[1" };
                d.s.write_in(b)?;
                d.s.sync()?;
                d.ui.notice = None;
            }
            1 if d.ui.ed.allowed && d.s.opts.flavor == Flavor::Ansi => {
                d.s.write_in(b"\xe2\x82")?;
                d.s.sync()?;
                d.ui.notice = None;
            }
            2 => {
                // lines that have only just been printed
                for i in 0..c.rng.range(1, 20) {
                    d.cmd(Cmd::Print(Via::Clone, ML::plain(format!("last {}", i))))?;
                }
            }
            3 => {
                d.cmd(Cmd::Bell)?;
                d.cmd(Cmd::Status(Some(ML::plain("going"))))?;
            }
            _ => {}
        }
        let how = die_cmd(&mut c.rng);
        c.sig(&format!("{:?}", how));
        timed(&mut d.s, how)?;
        let ui = d.ui.clone();
        settle_given_back(&mut d.s, &ui)?;
        d.s.call(Cmd::DropClone)?;
        c.count("shutdowns", 1);
        let mut ui = d.ui.clone();
        if c.rng.chance(2, 3) {
            own_io(c, &mut d.s, &mut ui)?;
        }
        // nothing accumulates
        let mut now = (0, vec![]);
        let end = Instant::now() + Duration::from_secs(3);
        loop {
            d.s.sync()?;
            now = (d.s.threads(), d.s.call(Cmd::FdIds)?.lines);
            match &first {
                Some(f) if *f != now && Instant::now() < end => std::thread::sleep(Duration::from_millis(5)),
                _ if now.0 > 1 && Instant::now() < end => std::thread::sleep(Duration::from_millis(5)),
                _ => break,
            }
        }
        ensure!(now.0 == 1, "{} threads are left after shutting down", now.0);
        match &first {
            None => first = Some(now),
            Some(f) => ensure!(*f == now, "threads and descriptors: {:?} after round {}, {:?} after the first", now, round, f),
        }
        if round < 3 {
            renew(&mut d)?;
        }
    }
    let h = d.s.call(Cmd::SigHupDisposition)?;
    ensure!(h.num == 2 && h.us as i32 & libc::SA_RESTART != 0, "the SIGHUP handler is not the program's: {:?}", (h.num, h.us));
    Ok(())
}

/// Threads keep printing while the instance is shut down.
fn s_busy(c: &mut Ctx) -> R<()> {
    let o = any_term(&mut c.rng);
    c.count(&format!("sessions_{}", kind(&o)), 1);
    let mut s = Sess::start(o.clone())?;
    for round in 0..3 {
        s.base_rows = s.vt.abs_row();
        s.call(Cmd::New)?;
        s.call(Cmd::Status(Some(ML::plain("stat"))))?;
        s.call(Cmd::Prompt(ML::plain("> "), true, false))?;
        let nt = c.rng.range(1, 4);
        let progs = (0..nt)
            .map(|t| {
                let mut p = vec![];
                if c.rng.chance(1, 3) {
                    p.push(TOp::SleepUs(c.rng.below(2000) as u64));
                }
                p.push(TOp::PrintUntilDead(format!("{}", (b'A' + t as u8) as char), 1500));
                p
            })
            .collect();
        let typing = c.rng.chance(1, 3);
        if typing {
            // (not before the driver has stopped echoing)
            s.sync()?;
            s.write_in(b"abc")?;
            s.sync()?;
        }
        s.call(Cmd::Spawn(progs, c.rng.chance(1, 2)))?;
        s.call(Cmd::Sleep(c.rng.below(4) as u64))?;
        let how = die_cmd(&mut c.rng);
        timed(&mut s, how)?;
        let j = s.call(Cmd::Join)?;
        for t in &j.threads {
            ensure!(t.panic.is_none(), "thread ended with {:?}", t.panic);
        }
        s.sync()?;
        s.settle(Duration::from_millis(1500), modes_ok_m)?;
        // on the screen: a prefix of what each thread printed
        let mut next = vec![0usize; nt];
        let mut r = s.base_rows;
        loop {
            if r >= s.vt.total_rows() {
                break;
            }
            let t = row_text(s.vt.row(r));
            let t = t.trim_end();
            if t.is_empty() {
                break;
            }
            let th = (t.as_bytes()[0]).wrapping_sub(b'A') as usize;
            ensure!(
                th < nt && t[1..].parse::<usize>() == Ok(next[th]),
                "row {} shows {:?}; lines so far {:?}\n{}",
                r,
                t,
                next,
                trunc(&s.vt.dump(), 2000)
            );
            next[th] += 1;
            r += 1;
        }
        ensure!((s.vt.abs_row(), s.vt.cx) == (r, 0), "cursor at {:?}, below the output it is {:?}", (s.vt.abs_row(), s.vt.cx), (r, 0));
        for q in r..s.vt.total_rows() {
            ensure!(row_text(s.vt.row(q)).trim().is_empty(), "something below the output:\n{}", s.vt.dump());
        }
        for (t, n) in next.iter().enumerate() {
            let done: usize = j.threads[t].notes[0].parse().unwrap();
            ensure!(*n <= done, "{} lines of thread {} appeared, {} were printed", n, t, done);
        }
        c.count("lines", next.iter().sum::<usize>() as u64);
        c.count("shutdowns", 1);
        c.sig(&format!("{} {:?}", round, next));
        // standard input and output work
        let m = format!("m{}", round);
        s.write_in(format!("\n{}\n", m).as_bytes())?;
        for k in 0.. {
            ensure!(k < 4, "the typed line never arrived");
            let l = s.call(Cmd::ReadStdinLine)?.lines[0].clone();
            if l == format!("{}\n", m) {
                break;
            }
        }
        s.sync()?;
    }
    Ok(())
}
fn modes_ok_m(s: &mut Sess) -> Result<(), String> {
    modes_ok(s)
}

/// Input keeps coming while the instance is shut down; or the terminal is slow.
fn s_flood(c: &mut Ctx) -> R<()> {
    let mut o = any_term(&mut c.rng);
    let pipe = c.rng.chance(1, 4);
    if pipe {
        o = perturb(&mut c.rng, Opts { plain_tty: true, ..Opts::pipes(40, 10) });
    }
    c.count(&format!("sessions_{}", if pipe { "pipe" } else { kind(&o) }), 1);
    let mut s = Sess::start(o)?;
    for round in 0..3 {
        s.call(Cmd::New)?;
        if c.rng.chance(2, 3) {
            s.sync()?;
        }
        let slow = c.rng.chance(1, 2);
        let n = if slow { c.rng.range(100, 400) } else { c.rng.range(1, 1500) };
        if slow && !pipe {
            // more than fits into the terminal's buffer, and nobody reads
            for i in 0..n {
                s.send(&Cmd::Print(Via::Io, ML::plain(format!("{:04} {}", i, "x".repeat(30)))))?;
            }
            let how = die_cmd(&mut c.rng);
            s.send(&how)?;
            std::thread::sleep(Duration::from_millis(c.rng.below(30) as u64));
            for _ in 0..n {
                let Some(r) = s.recv(Duration::from_secs(20))? else {
                    return Err(s.stuck("printing did not return"));
                };
                ensure!(r.panic.is_none(), "print panicked: {:?}", r.panic);
            }
            let Some(r) = s.recv(Duration::from_secs(20))? else {
                return Err(s.stuck("shutting down did not return"));
            };
            ensure!(r.panic.is_none(), "panic: {:?}", r.panic);
            c.count("slow_terminal", 1);
        } else {
            // (the last byte is an end of line, so that nothing is left in the
            // driver's line buffer)
            let how = die_cmd(&mut c.rng);
            let at = c.rng.below(n);
            let mut sent = false;
            for i in 0..n / 50 + 1 {
                if !sent && i * 50 >= at {
                    s.send(&how)?;
                    sent = true;
                }
                s.write_in(b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\n")?;
                s.pump();
            }
            if !sent {
                s.send(&how)?;
            }
            let Some(r) = s.recv(Duration::from_secs(20))? else {
                return Err(s.stuck("shutting down did not return"));
            };
            ensure!(r.panic.is_none(), "panic: {:?}", r.panic);
            c.count("flooded", 1);
        }
        c.count("shutdowns", 1);
        c.sig(&format!("{} {} {}", round, slow, n));
        s.sync()?;
        if !pipe {
            s.settle(Duration::from_millis(1500), modes_ok_m)?;
        }
        let m = format!("mark{}\n", round);
        s.write_in(format!("\n{}", m).as_bytes())?;
        for k in 0.. {
            ensure!(k < 3000, "the typed line never arrived");
            let Some(r) = s.call_t(Cmd::ReadStdinLine, Duration::from_secs(10))? else {
                return Err(s.stuck("reading from standard input after shutting down hangs"));
            };
            if r.lines[0] == m {
                break;
            }
            ensure!(r.num > 0, "standard input ended");
        }
    }
    Ok(())
}

/// A function the library calls panics; it is over then, but cleanly.
fn s_callback(c: &mut Ctx) -> R<()> {
    let pipe = c.rng.chance(1, 2);
    let o = if pipe { perturb(&mut c.rng, Opts { plain_tty: true, ..Opts::pipes(40, 10) }) } else { any_term(&mut c.rng) };
    c.count(&format!("sessions_{}", if pipe { "pipe" } else { kind(&o) }), 1);
    let mut s = Sess::start(o)?;
    s.call(Cmd::InstallHup)?;
    let fds = s.call(Cmd::FdIds)?.lines;
    for round in 0..4 {
        s.call(Cmd::New)?;
        if pipe || c.rng.chance(1, 2) {
            s.sync()?;
        }
        let comp = !pipe && c.rng.chance(1, 2);
        if comp {
            s.sync()?;
            s.call(Cmd::SetCompletor(1, vec![CompAct::Panic("oops".into())]))?;
            s.sync()?;
            s.write_in(b"a\t")?;
            s.sync()?;
        } else {
            let mut a = vec![];
            if c.rng.chance(1, 2) {
                a.push(SAct::Sleep(c.rng.below(3) as u64));
            }
            a.push(SAct::Panic("oops".into()));
            s.call(Cmd::Suspend(a))?;
        }
        if c.rng.chance(1, 2) {
            s.settle(Duration::from_secs(5), |s| {
                let r = s.call(Cmd::Read(ReadMode::Try)).map_err(|_| "read failed".to_string())?;
                if r.resps.first().map(|x| &x.0) == Some(&Resp::Dead) {
                    Ok(())
                } else {
                    Err("not dead after a callback panicked".into())
                }
            })?;
        }
        c.sig(&format!("{} {} {}", round, comp, c.idx));
        let how = die_cmd(&mut c.rng);
        timed(&mut s, how)?;
        s.sync()?;
        if !pipe {
            s.settle(Duration::from_millis(1500), modes_ok_m)?;
        }
        let m = format!("m{}\n", round);
        s.write_in(m.as_bytes())?;
        let Some(l) = s.call_t(Cmd::ReadStdinLine, Duration::from_secs(10))? else {
            return Err(s.stuck("reading from standard input after shutting down hangs"));
        };
        ensure!(l.lines[0] == m, "read {:?} from standard input after shutting down, written {:?}", l.lines, m);
        let end = Instant::now() + Duration::from_secs(3);
        while s.threads() > 1 && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(2));
        }
        ensure!(s.threads() == 1, "{} threads after a callback panicked", s.threads());
        let f = s.call(Cmd::FdIds)?.lines;
        ensure!(f == fds, "descriptors {:?}, were {:?}", f, fds);
        let h = s.call(Cmd::SigHupDisposition)?;
        ensure!(h.num == 2, "the program's SIGHUP handler was not restored: {:?}", (h.num, h.us));
        c.count("shutdowns", 1);
    }
    Ok(())
}

/// Shutting down while the library is busy.
fn s_held(c: &mut Ctx) -> R<()> {
    let pipe = c.rng.chance(1, 4);
    let o = if pipe { perturb(&mut c.rng, Opts { plain_tty: true, ..Opts::pipes(40, 10) }) } else { any_term(&mut c.rng) };
    c.count(&format!("sessions_{}", if pipe { "pipe" } else { kind(&o) }), 1);
    let mut d = Drv::start(o)?;
    for round in 0..3 {
        if pipe {
            d.s.call(Cmd::Print(Via::Io, ML::plain("line")))?;
        } else {
            let n = *c.rng.pick(&[0, 1, 4]);
            use_it(c, &mut d, n, false)?;
        }
        let typed = !pipe && d.ui.ed.allowed && c.rng.chance(1, 2);
        if typed {
            // nobody reads this anymore, or it goes back to the program
            d.s.call(Cmd::Custom(9))?;
        }
        if c.rng.chance(1, 3) {
            let n = *c.rng.pick(&[1, 20, 300, 300, 3000, 3000, 30000]);
            d.s.call(Cmd::Customs(n))?;
            c.count("unread", n as u64);
        }
        let ms = c.rng.range(1, 40) as u64;
        let how = die_cmd(&mut c.rng);
        c.sig(&format!("{} {} {:?}", round, ms, how));
        let what = format!("{:?}", how);
        let r = timed(&mut d.s, Cmd::HeldDie(Box::new(how), ms))?;
        ensure!(r.flag, "{} came back although the library was still running a function of the program", what);
        c.count("shutdowns", 1);
        if !pipe {
            // (nothing is left to be done)
            ensure!(d.s.termios() == d.s.termios0, "terminal settings after {}: {}", what, d.s.termios());
            let mut ui = d.ui.clone();
            settle_given_back(&mut d.s, &ui)?;
            own_io(c, &mut d.s, &mut ui)?;
            if round < 2 {
                renew(&mut d)?;
            }
        } else {
            d.s.sync()?;
            let want = "line\n".repeat(round + 1);
            ensure!(d.s.raw == want.as_bytes(), "output {:?}", String::from_utf8_lossy(&d.s.raw));
            if round < 2 {
                d.s.call(Cmd::New)?;
            }
        }
    }
    Ok(())
}

/// Standard error is captured, and there are child processes (some have it).
fn s_child(c: &mut Ctx) -> R<()> {
    let Some(bin) = std::env::var_os("LISOMON_STDERR") else { return Ok(()) };
    let mut d = Drv::start(Opts { stderr_tty: true, bin: bin.into(), ..Opts::new(40, 12) })?;
    let which = c.idx % 6;
    for round in 0..2 {
        c.sig(&format!("{} {}", which, round));
        let n = *c.rng.pick(&[0, 1, 4]);
        use_it(c, &mut d, n, false)?;
        // which of them go on while the library is being shut down
        let (ours, lives) = match which {
            0 => (true, true),
            1 | 2 => (true, false),
            3 => (false, false),
            _ => (false, true),
        };
        let ms = if lives { 3000 } else { *c.rng.pick(&[0u64, 10, 80]) };
        d.s.call(Cmd::Child("from a child".into(), ours, ms))?;
        if ours {
            let red = Attr { s: 0, fg: Some(1), bg: None };
            d.ui.print(&ML { v: vec![
                Seg { t: "E: ".into(), a: Attr { s: from_style(liso::Style::BOLD), ..red } },
                Seg { t: "from a child".into(), a: red },
            ] });
            let ui = d.ui.clone();
            d.s.settle(Duration::from_millis(1500), move |s| s.compare(&ui))?;
        }
        if !lives {
            d.s.call(Cmd::ChildWait)?;
        }
        let how = die_cmd(&mut c.rng);
        let what = format!("{:?}", how);
        let t = Instant::now();
        timed(&mut d.s, how)?;
        let t = t.elapsed();
        c.count("shutdowns", 1);
        if lives && t > Duration::from_millis(2000) {
            if ours {
                return Err(Fail::Viol(format!("{} took {:?}: it waited until a child process that has the captured standard error had ended", what, t)));
            }
            return Err(Fail::Soft(format!("{} took {:?} (a child process that has nothing to do with it was running)", what, t)));
        }
        ensure!(d.s.termios() == d.s.termios0, "terminal settings after {}: {}", what, d.s.termios());
        settle_given_back(&mut d.s, &d.ui)?;
        d.s.call(Cmd::ChildWait)?;
        let mut ui = d.ui.clone();
        own_io(c, &mut d.s, &mut ui)?;
        if round == 0 {
            renew(&mut d)?;
        }
    }
    Ok(())
}

/// Many instances in quick succession.
fn s_cycle(c: &mut Ctx) -> R<()> {
    let pipe = c.rng.chance(1, 3);
    let o = if pipe { perturb(&mut c.rng, Opts { plain_tty: true, ..Opts::pipes(40, 10) }) } else { any_term(&mut c.rng) };
    c.count(&format!("sessions_{}", if pipe { "pipe" } else { kind(&o) }), 1);
    let mut s = Sess::start(o)?;
    s.call(Cmd::InstallHup)?;
    let fds = s.call(Cmd::FdIds)?.lines;
    let who = s.call(Cmd::Fds012)?.lines;
    s.call(Cmd::FdGuard(true))?;
    let n = c.rng.range(5, 60) as u32;
    let print = c.rng.chance(1, 2);
    timed_n(&mut s, Cmd::Cycle(n, print), n)?;
    c.count("instances", n as u64);
    let g = s.call(Cmd::FdGuard(false))?;
    ensure!(g.lines.is_empty(), "descriptors: {:?}", g.lines);
    c.count("descriptors_guarded", g.us);
    let end = Instant::now() + Duration::from_secs(3);
    while s.threads() > 1 && Instant::now() < end {
        std::thread::sleep(Duration::from_millis(2));
    }
    ensure!(s.threads() == 1, "{} threads after {} instances", s.threads(), n);
    let fds2 = s.call(Cmd::FdIds)?.lines;
    ensure!(fds == fds2, "descriptors {:?} after {} instances, {:?} before", fds2, n, fds);
    let who2 = s.call(Cmd::Fds012)?.lines;
    ensure!(who == who2, "standard descriptors {:?}, were {:?}", who2, who);
    let h = s.call(Cmd::SigHupDisposition)?;
    ensure!(h.num == 2 && h.us as i32 & libc::SA_RESTART != 0, "the program's SIGHUP handler was not restored: {:?}", (h.num, h.us));
    if !pipe {
        s.settle(Duration::from_millis(1500), modes_ok_m)?;
    } else if print {
        s.sync()?;
        let want: String = (0..n).map(|i| format!("cycle {}\n", i)).collect();
        ensure!(s.raw == want.as_bytes(), "output {:?}", String::from_utf8_lossy(&s.raw));
    }
    // and it still works
    s.call(Cmd::New)?;
    s.sync()?;
    s.write_in(if pipe { b"line\n" } else { b"line\r" })?;
    s.sync()?;
    let r = s.drain()?;
    ensure!(r.len() == 1 && r[0].0 == Resp::Input("line".into()), "typing to instance {}: {:?}", n + 1, r);
    timed(&mut s, Cmd::Drop)?;
    c.sig(&format!("{} {}", n, print));
    Ok(())
}
fn timed_n(s: &mut Sess, c: Cmd, n: u32) -> R<()> {
    match s.call_t(c, Duration::from_secs(20 + n as u64 / 2))? {
        None => {
            Err(s.stuck("shutting down did not come back"))
        }
        Some(r) => {
            ensure!(r.panic.is_none(), "panic: {:?}", r.panic);
            Ok(())
        }
    }
}

/// Other threads never stop printing (and writing to standard error, if that is
/// captured).
pub fn s_storm(c: &mut Ctx) -> R<()> {
    let mut o = any_term(&mut c.rng);
    let pipe = c.rng.chance(1, 4);
    if pipe {
        o = perturb(&mut c.rng, Opts { plain_tty: true, ..Opts::pipes(40, 10) });
    }
    o.stderr_tty = cfg!(feature = "stderr") && !pipe;
    o.chaos = None;
    let mut s = Sess::start(o)?;
    for round in 0..2 {
        s.call(Cmd::New)?;
        s.sync()?;
        let n = c.rng.range(1, 4);
        let progs: Vec<Vec<TOp>> = (0..n)
            .map(|_| vec![TOp::Storm { err: s.opts.stderr_tty && c.rng.chance(1, 2), gate: 70 + round, max: 4_000_000 }])
            .collect();
        let ms = c.rng.below(4) as u64;
        let how = die_cmd(&mut c.rng);
        c.sig(&format!("{} {:?} {} {:?}", round, progs, ms, how));
        s.call(Cmd::Spawn(progs, false))?;
        s.call(Cmd::Sleep(ms))?;
        match s.call_t(how, Duration::from_secs(15))? {
            Some(r) => {
                ensure!(r.panic.is_none(), "panic: {:?}", r.panic);
                c.count("shutdown_ms", r.us / 1000);
            }
            None => return Err(Fail::Soft("shutting down takes as long as other threads keep printing".into())),
        }
        s.call(Cmd::OpenGate(70 + round))?;
        s.call(Cmd::Join)?;
        s.sync()?;
        if !pipe {
            ensure!(s.termios() == s.termios0, "terminal settings after shutting down: {}", s.termios());
        }
        c.count("shutdowns", 1);
    }
    Ok(())
}

pub fn c13() -> Check {
    Check {
        id: "C13",
        level: "exploration",
        rule: "shutting down in random states (display, typing, half escape sequences, notices, queued output, printing threads, input floods, slow terminal) in all three ways, on ANSI and VT52-type terminals and pipes; then terminal settings, modes, screen, cursor, descriptors, threads, signal handler and the program's own input and output are checked, and a new instance is used. Distinct: by the calls and keys before and the way of shutting down",
        assumptions: vec!["terminal behaviour as in the emulator"],
        scens: vec![
            scen("shut", 900, s_shut),
            scen("busy", 250, s_busy).racy(),
            scen("flood", 120, s_flood).racy(),
            scen("cycle", 150, s_cycle).racy(),
            scen("storm", 40, s_storm).racy().solo(),
            scen("callback", 300, s_callback).racy(),
            scen("held", 200, s_held).racy(),
            scen("child", 25, s_child).racy(),
        ],
    }
}

// ------------------------------------------------------------------- C14

fn rmode(r: &mut Rng) -> ReadMode {
    match r.below(8) {
        0 => ReadMode::Try,
        1 => ReadMode::Timeout(500_000),
        2 => ReadMode::Deadline(500_000),
        3 => ReadMode::AsyncTimeout(500_000),
        4 => ReadMode::Async,
        5 => ReadMode::OldAsync,
        6 => ReadMode::OldBlocking,
        _ => ReadMode::Blocking,
    }
}
/// The terminal hangs up at some point.
fn s_hangup(c: &mut Ctx) -> R<()> {
    let mut o = any_term(&mut c.rng);
    o.prerows.clear();
    c.count(&format!("sessions_{}", kind(&o)), 1);
    let mut d = Drv::start(o)?;
    d.s.call(Cmd::InstallHup)?;
    d.s.call(Cmd::SetClone)?;
    let n = c.rng.below(4);
    use_it(c, &mut d, n, true)?;
    d.s.drain()?;
    let blocked = c.rng.chance(1, 2);
    let m = rmode(&mut c.rng);
    c.sig(&format!("{:?} {}", m, blocked));
    let threads = c.rng.chance(1, 3);
    if threads {
        d.s.call(Cmd::Spawn(vec![vec![TOp::PrintUntilDead("A".into(), 3_000_000)]], true))?;
    }
    let mut deads = 0;
    let first = if blocked {
        d.s.send(&Cmd::Read(ReadMode::Blocking))?;
        std::thread::sleep(Duration::from_millis(c.rng.below(4) as u64));
        d.s.hangup();
        match d.s.recv(Duration::from_secs(15))? {
            Some(r) => r,
            None => return Err(d.s.stuck("a blocked read did not return when the terminal hung up")),
        }
    } else {
        d.s.hangup();
        match d.s.call_t(Cmd::Read(ReadMode::Blocking), Duration::from_secs(15))? {
            Some(r) => r,
            None => return Err(d.s.stuck("reading did not return after the terminal hung up")),
        }
    };
    ensure!(first.panic.is_none(), "read panicked: {:?}", first.panic);
    ensure!(first.resps.len() == 1 && first.resps[0].0 == Resp::Dead, "after hanging up: {:?}", first.resps);
    deads += 1;
    // dead for good
    let more = c.rng.below(8);
    for _ in 0..more {
        let m = rmode(&mut c.rng);
        let r = d.s.call(Cmd::Read(m.clone()))?;
        ensure!(r.resps.len() == 1 && r.resps[0].0 == Resp::Dead, "{:?} on a dead instance: {:?}", m, r.resps);
        deads += 1;
    }
    // output on a dead instance
    for x in [
        Cmd::Print(Via::Io, ML::plain("x")),
        Cmd::Print(Via::Clone, ML::plain("x")),
        Cmd::Print(Via::Global, ML::plain("x")),
        Cmd::Wrap(Via::Io, ML::plain("x")),
        Cmd::Echo(ML::plain("x")),
        Cmd::Wrap(Via::Clone, ML::plain("x")),
        Cmd::Wrap(Via::Global, ML::plain("x")),
        Cmd::Status(None),
        Cmd::Status(Some(ML::plain("x"))),
        Cmd::RemoveStatus,
        Cmd::Prompt(ML::plain("x"), true, true),
        Cmd::RemovePrompt(true, true),
        Cmd::Notice(ML::plain("x"), Dur::Ms(5)),
        Cmd::Custom(5),
        Cmd::CustomBox(5),
        Cmd::RemoveCompletor,
        Cmd::SetCompletor(1, vec![]),
        Cmd::Suspend(vec![]),
        Cmd::Bell,
    ] {
        if c.rng.chance(1, 2) {
            let r = d.s.call_raw(x.clone())?;
            ensure!(r.panic.is_some(), "{:?} on a dead instance did not panic", x);
            c.count("calls_on_dead_instances", 1);
        }
    }
    if threads {
        let j = d.s.call(Cmd::JoinFor(10_000))?;
        ensure!(j.flag, "a printing thread did not find out that the instance is dead");
    }
    // a program that goes on reading regardless is stopped
    if c.rng.chance(1, 2) {
        let mut stopped = false;
        for _ in 0..40 {
            let m = rmode(&mut c.rng);
            let r = d.s.call_raw(Cmd::Read(m.clone()))?;
            if r.panic.is_some() {
                stopped = true;
                break;
            }
            ensure!(r.resps.len() == 1 && r.resps[0].0 == Resp::Dead, "{:?} on a dead instance: {:?}", m, r.resps);
            deads += 1;
        }
        ensure!(stopped, "a program that keeps reading from a dead instance is not stopped");
        ensure!(deads == 8, "stopped after {} reports of death instead of 8", deads);
        c.count("stopped", 1);
    }
    // dropping it is harmless, and does not take forever
    timed(&mut d.s, Cmd::Drop)?;
    c.count("hangups", 1);
    // nothing goes on using the processor
    d.s.sync()?;
    Ok(())
}

/// Death and then a print, at once.
fn s_deadprint(c: &mut Ctx) -> R<()> {
    match c.rng.below(3) {
        0 => {
            let mut s = Sess::start(perturb(&mut c.rng, Opts { plain_tty: true, ..Opts::pipes(40, 10) }))?;
            let n = 100;
            let r = s.call(Cmd::ClonePrints(n))?;
            ensure!(r.num == 0, "{} of {} prints after shutting down were lost silently (pipe mode)", r.num, n);
            c.count("prints_after_death", n as u64);
        }
        1 => {
            let mut s = Sess::start(any_term(&mut c.rng))?;
            let n = 15;
            let r = s.call(Cmd::ClonePrints(n))?;
            ensure!(r.num == 0, "{} of {} prints after shutting down were lost silently", r.num, n);
            c.count("prints_after_death", n as u64);
        }
        _ => {
            let mut o = any_term(&mut c.rng);
            o.prerows.clear();
            let mut s = Sess::start(o)?;
            s.call(Cmd::InstallHup)?;
            s.call(Cmd::New)?;
            s.sync()?;
            if c.rng.chance(1, 2) {
                s.call(Cmd::Prompt(ML::plain("> "), true, false))?;
            }
            let m = c.rng.pick(&[ReadMode::Blocking, ReadMode::Try, ReadMode::Async]).clone();
            s.send(&Cmd::DeadThenPrint(m.clone()))?;
            std::thread::sleep(Duration::from_millis(c.rng.below(3) as u64));
            s.hangup();
            let Some(r) = s.recv(Duration::from_secs(15))? else {
                return Err(s.stuck("never dead after hanging up"));
            };
            ensure!(r.flag, "a print right after {:?} reported death was lost silently", m);
            timed(&mut s, Cmd::Drop)?;
            c.count("prints_after_death", 1);
        }
    }
    c.sig(&format!("{}", c.idx));
    Ok(())
}

/// A second instance while there is one.
fn s_second(c: &mut Ctx) -> R<()> {
    let pipe = c.rng.chance(1, 2);
    let o = if pipe { perturb(&mut c.rng, Opts { plain_tty: true, ..Opts::pipes(40, 10) }) } else { Opts { plain_tty: true, ..Opts::new(40, 24) } };
    let mut o = o;
    let nog = nonglobal();
    let global = !(nog.is_some() && c.rng.chance(1, 3));
    if !global {
        o.bin = nog.unwrap();
        c.count("sessions_without_global", 1);
    }
    let mut s = Sess::start(o)?;
    // several threads at once: exactly one gets it
    let n = c.rng.range(1, 8) as u32;
    let r = s.call(Cmd::RaceNew(n))?;
    ensure!(r.num == 1, "{} of {} threads created an instance at the same time", r.num, n);
    c.count("concurrent_creations", n as u64);
    s.sync()?;
    let k = c.rng.range(1, 4);
    let mut progs = vec![];
    for t in 0..k {
        let mut p = vec![];
        for i in 0..c.rng.range(1, 6) {
            p.push(TOp::TryNew);
            p.push(TOp::Print(ML::plain(format!("T{}-{};", t, i))));
        }
        progs.push(p);
    }
    let prints: Vec<usize> = progs.iter().map(|p| p.len() / 2).collect();
    c.sig(&format!("{} {:?} {} {}", n, prints, pipe, global));
    s.call(Cmd::Spawn(progs, true))?;
    let j = s.call(Cmd::Join)?;
    for t in &j.threads {
        ensure!(t.panic.is_none(), "{:?}", t.panic);
        for n in &t.notes {
            ensure!(n.starts_with("panic: "), "{}", n);
            c.count("second_instances_refused", 1);
        }
    }
    // the first one is unharmed
    s.write_in(b"line\n")?;
    s.sync()?;
    let r = s.drain()?;
    ensure!(r.iter().filter(|x| x.0 == Resp::Input("line".into())).count() == 1 && r.len() == 1, "typing after the attempt gave {:?}", r);
    s.call(Cmd::Custom(7))?;
    s.sync()?;
    let r = s.drain()?;
    ensure!(r.len() == 1 && r[0].0 == Resp::Custom(7), "{:?}", r);
    s.call(Cmd::Print(Via::Global, ML::plain("after;")))?;
    timed(&mut s, die_cmd(&mut c.rng))?;
    s.sync()?;
    let out = String::from_utf8_lossy(&s.raw).to_string();
    for (t, n) in prints.iter().enumerate() {
        for i in 0..*n {
            ensure!(out.matches(&format!("T{}-{};", t, i)).count() == 1, "line T{}-{} missing or repeated: {:?}", t, i, trunc(&out, 2000));
        }
    }
    ensure!(out.contains("after;"), "the line printed last is missing: {:?}", trunc(&out, 2000));
    // now there may be a new one
    s.call(Cmd::New)?;
    s.sync()?;
    s.write_in(b"again\n")?;
    s.sync()?;
    let r = s.drain()?;
    ensure!(r.len() == 1 && r[0].0 == Resp::Input("again".into()), "typing to a later instance: {:?}", r);
    timed(&mut s, Cmd::Drop)?;
    Ok(())
}
pub fn nonglobal() -> Option<std::path::PathBuf> {
    std::env::var("LISOMON_NOGLOBAL").ok().map(|x| x.into()).filter(|p: &std::path::PathBuf| p.exists())
}

/// Somebody wants a new instance while the old one is being shut down.
fn s_recreate(c: &mut Ctx) -> R<()> {
    let pipe = c.rng.chance(1, 3);
    let o = if pipe { perturb(&mut c.rng, Opts { plain_tty: true, ..Opts::pipes(40, 10) }) } else { any_term(&mut c.rng) };
    let mut o = o;
    if let (Some(b), true) = (nonglobal(), c.rng.chance(1, 3)) {
        o.bin = b;
        c.count("sessions_without_global", 1);
    }
    let mut s = Sess::start(o)?;
    s.call(Cmd::New)?;
    if c.rng.chance(1, 2) {
        s.sync()?;
    }
    let raw_tty = {
        s.sync()?;
        s.termios()
    };
    for i in 0..6 {
        if c.rng.chance(1, 3) {
            for k in 0..10 {
                s.call(Cmd::Print(Via::Io, ML::plain(format!("r{} {}", i, k))))?;
            }
        }
        let (a, b) = (*c.rng.pick(&[0, 50, 200, 1000]), *c.rng.pick(&[0, 0, 50, 300, 1500]));
        let r = match s.call_t(Cmd::RaceRecreate(a, b), Duration::from_secs(25))? {
            Some(r) => r,
            None => {
                return Err(s.stuck("shutting down while another thread creates an instance hangs"));
            }
        };
        ensure!(r.panic.is_none(), "panic: {:?}", r.panic);
        c.count("attempts", r.us);
        c.count("recreations", 1);
        c.sig(&format!("{} {} {}", a, b, r.us.min(50)));
        s.sync()?;
        // the new instance has the terminal for itself
        if !pipe {
            s.settle(Duration::from_millis(1000), |s| {
                if s.termios() == raw_tty {
                    Ok(())
                } else {
                    Err("the terminal is not in the mode the new instance needs".into())
                }
            })?;
        }
        s.write_in(if pipe { b"line\n" } else { b"line\r" })?;
        s.sync()?;
        let r = s.drain()?;
        ensure!(r.len() == 1 && r[0].0 == Resp::Input("line".into()), "typing to the new instance: {:?}", r);
        let p = format!("p{};", i);
        s.call(Cmd::Print(Via::Global, ML::plain(p.clone())))?;
        s.sync()?;
        let out = String::from_utf8_lossy(&s.raw).to_string();
        ensure!(out.matches(&p).count() == 1, "the line printed on the new instance is missing");
    }
    timed(&mut s, Cmd::Drop)?;
    if !pipe {
        s.settle(Duration::from_millis(1500), modes_ok_m)?;
    }
    Ok(())
}

/// The global function works exactly while there is an instance.
fn s_global(c: &mut Ctx) -> R<()> {
    let pipe = c.rng.chance(1, 2);
    let mut s = Sess::start(Opts { plain_tty: true, ..if pipe { Opts::pipes(40, 10) } else { Opts::new(40, 24) } })?;
    let mut want = vec![];
    let mut alive = false;
    for i in 0..12 {
        match c.rng.below(4) {
            0 => {
                if alive {
                    timed(&mut s, die_cmd(&mut c.rng))?;
                } else {
                    s.call(Cmd::New)?;
                    s.sync()?;
                }
                alive = !alive;
            }
            1 => {
                let t = format!("m{};", i);
                let r = s.call_raw(Cmd::GlobalPrintMacro(t.clone()))?;
                ensure!(r.panic.is_some() != alive, "macros with{} an instance: panic {:?}", if alive { "" } else { "out" }, r.panic);
                if alive {
                    want.push((t, 2));
                }
            }
            _ => {
                let t = format!("g{};", i);
                let r = s.call(Cmd::GlobalTry(t.clone()))?;
                ensure!(r.flag != alive, "output() with{} an instance: panicked {}", if alive { "" } else { "out" }, r.flag);
                if alive {
                    want.push((t, 1));
                }
            }
        }
        c.count("global_calls", 1);
    }
    if alive {
        timed(&mut s, Cmd::Drop)?;
    }
    s.sync()?;
    let out = String::from_utf8_lossy(&s.raw).to_string();
    for (t, n) in &want {
        ensure!(out.matches(t.as_str()).count() == *n, "{:?} appears {} times instead of {}", t, out.matches(t.as_str()).count(), n);
    }
    c.sig(&format!("{:?}", want));
    Ok(())
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        level: "exploration",
        rule: "hang-ups in random states with blocked reads and printing threads; every way of reading and every output call on the dead instance; reports of death counted; creations raced against each other and against shutdowns, with and without the global feature; the global function inside and outside an instance's life. Distinct: by state, ways of reading and schedule delays",
        assumptions: vec!["a caught panic in a program thread takes the terminal out of raw mode (C23), so that a refused second instance is followed by cooked input"],
        scens: vec![
            scen("hangup", 500, s_hangup).racy(),
            scen("deadprint", 300, s_deadprint).racy(),
            scen("second", 300, s_second).racy(),
            scen("recreate", 300, s_recreate).racy(),
            scen("global", 200, s_global),
        ],
    }
}

// ------------------------------------------------------------------- C16

/// What is printed by the program itself.
fn own_text(ui: &mut Ui, t: &str) {
    for l in t.trim_end_matches('\n').split('\n') {
        ui.rows.extend(layout_printed(&ML::plain(l).chars()[..], Attr::default(), ui.w));
    }
}
/// One suspended function at a time, looked at from inside.
fn s_inside(c: &mut Ctx) -> R<()> {
    let o = any_term(&mut c.rng);
    c.count(&format!("sessions_{}", kind(&o)), 1);
    let mut d = Drv::start(o)?;
    d.s.call(Cmd::SetClone)?;
    let raw = d.s.termios();
    let mut gate = 0;
    for round in 0..7 {
        let n = *c.rng.pick(&[0, 1, 1, 3, 6]);
        use_it(c, &mut d, n, true)?;
        if c.rng.chance(1, 3) {
            // the display has only just changed
            for _ in 0..c.rng.range(1, 4) {
                let x = next_cmd(&mut c.rng, &d.ui, UiCfg { styled: true, rich: false, notices: true, clear: false });
                c.sig(&format!("{:?}", x));
                d.cmd(x)?;
            }
        }
        let k = *c.rng.pick(&[1, 1, 1, 2, 3]);
        let plan: Vec<(u32, Vec<String>)> = (0..k)
            .map(|_| {
                gate += 1;
                let outs = (0..c.rng.below(4)).map(|i| format!("own {} {}\n", gate, i)).collect();
                (gate, outs)
            })
            .collect();
        let later = c.rng.chance(1, 2);
        c.sig(&format!("{} {:?} {}", round, plan, later));
        for (i, (g, outs)) in plan.iter().enumerate() {
            let mut acts = vec![SAct::Log(format!("begin {}", g)), SAct::Gate(*g)];
            acts.extend(outs.iter().map(|o| SAct::Out(o.clone())));
            acts.push(SAct::Gate(*g + 1000));
            acts.push(SAct::Log(format!("end {}", g)));
            // (output between the functions)
            if i > 0 && c.rng.chance(1, 2) {
                let l = ML::plain(format!("between {}", g));
                d.s.call(Cmd::Print(Via::Clone, l))?;
                acts.insert(0, SAct::Log("between".into()));
            }
            d.s.call(Cmd::Suspend(acts))?;
        }
        for (i, (g, outs)) in plan.iter().enumerate() {
            // the function runs and waits
            let end = Instant::now() + Duration::from_secs(10);
            let mut log;
            let mut have = vec![];
            loop {
                d.s.sync()?;
                log = d.s.call(Cmd::TakeLog)?.lines;
                have.append(&mut log);
                if have.iter().any(|l| l.starts_with("begin")) || Instant::now() > end {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            if i > 0 {
                ensure!(have.first() == Some(&format!("end {}", plan[i - 1].0)), "log of suspended functions: {:?}", have);
                have.remove(0);
                let between = have.first().map(|x| x == "between").unwrap_or(false);
                if between {
                    have.remove(0);
                    d.ui.print(&ML::plain(format!("between {}", g)));
                }
            }
            ensure!(have == vec![format!("begin {}", g)], "log of suspended functions: {:?}, expected {:?}", have, format!("begin {}", g));
            let ui = d.ui.clone();
            settle_given_back(&mut d.s, &ui)?;
            c.count("seen_from_inside", 1);
            d.s.call(Cmd::OpenGate(*g))?;
            let mut ui = d.ui.clone();
            for o in outs {
                own_text(&mut ui, o);
            }
            settle_given_back(&mut d.s, &ui)?;
            d.ui.rows = ui.rows;
            if i + 1 == plan.len() && later {
                // asked for while suspended: not shown until later
                let before = d.ui.clone();
                for _ in 0..c.rng.range(1, 5) {
                    let x = next_cmd(&mut c.rng, &d.ui, UiCfg { styled: true, rich: false, notices: false, clear: false });
                    c.sig(&format!("{:?}", x));
                    d.cmd(x)?;
                    d.ui.notice = None;
                }
                d.ui.notice = before.notice.clone();
                d.s.sync()?;
                given_back(&d.s, &before).or_else(viol)?;
                c.count("held_back", 1);
            }
            d.s.call(Cmd::OpenGate(*g + 1000))?;
        }
        d.s.sync()?;
        let log = d.s.call(Cmd::TakeLog)?.lines;
        let want = format!("end {}", plan.last().unwrap().0);
        ensure!(log == vec![want.clone()], "log of suspended functions: {:?} instead of {:?}", log, want);
        // all as before
        d.s.settle(Duration::from_millis(1500), |s| {
            if s.termios() == raw {
                Ok(())
            } else {
                Err(format!("terminal settings after the suspension are {}, were {}", s.termios(), raw))
            }
        })?;
        d.check()?;
    }
    use_it(c, &mut d, 4, true)?;
    d.check()?;
    d.check_resps()?;
    timed(&mut d.s, die_cmd(&mut c.rng))?;
    let ui = d.ui.clone();
    settle_given_back(&mut d.s, &ui)?;
    Ok(())
}

/// Functions and output from several threads.
fn s_mix(c: &mut Ctx) -> R<()> {
    let (w, h) = (40, 24);
    let o = perturb(&mut c.rng, Opts::new(w, h));
    let mut s = Sess::start(o)?;
    s.call(Cmd::New)?;
    s.sync()?;
    s.call(Cmd::Prompt(ML::plain("> "), true, false))?;
    s.call(Cmd::Status(Some(ML::plain("stat"))))?;
    let nt = c.rng.range(1, 5);
    let mut want: Vec<Vec<String>> = vec![];
    let mut nested = vec![];
    let mut progs = vec![];
    let mut nf = 0;
    for t in 0..nt {
        let mut p = vec![];
        let mut w = vec![];
        for i in 0..c.rng.range(2, 25) {
            let line = format!("{}:{:03}", t, i);
            match c.rng.below(5) {
                0 | 1 => {
                    nf += 1;
                    let mut a = vec![SAct::Log(line.clone()), SAct::Termios];
                    if c.rng.chance(1, 3) {
                        let x = format!("n{}:{:03}", t, i);
                        a.push(SAct::Print(x.clone()));
                        nested.push((x, line.clone()));
                    }
                    if c.rng.chance(1, 4) {
                        a.push(SAct::Sleep(c.rng.below(3) as u64));
                    }
                    a.push(SAct::Out(format!("{}\n", line)));
                    p.push(TOp::Suspend(a));
                    w.push(line);
                }
                2 => {
                    p.push(TOp::SleepUs(c.rng.below(500) as u64));
                }
                3 => {
                    p.push(TOp::GlobalPrint(ML::plain(line.clone())));
                    w.push(line);
                }
                _ => {
                    p.push(TOp::Print(ML::plain(line.clone())));
                    w.push(line);
                }
            }
        }
        want.push(w);
        progs.push(p);
    }
    c.sig(&format!("{:?}", want));
    s.call(Cmd::Spawn(progs, c.rng.chance(1, 2)))?;
    let j = s.call(Cmd::Join)?;
    for t in &j.threads {
        ensure!(t.panic.is_none(), "{:?}", t.panic);
    }
    // (functions may be sleeping, which looks idle)
    s.call(Cmd::Print(Via::Io, ML::plain("last")))?;
    s.settle(Duration::from_secs(5), |s| {
        let t = (0..s.vt.total_rows()).rev().map(|r| row_text(s.vt.row(r)).trim_end().to_string()).find(|t| !t.is_empty());
        if t.as_deref() == Some(">") && (0..s.vt.total_rows()).any(|r| row_text(s.vt.row(r)).trim_end() == "last") {
            Ok(())
        } else {
            Err(format!("the line printed last is not shown, or the display is not as before:\n{}", trunc(&s.vt.dump(), 3000)))
        }
    })?;
    let mut rows: Vec<String> = (0..s.vt.total_rows()).map(|r| row_text(s.vt.row(r)).trim_end().to_string()).collect();
    while rows.last().map(|r| r.is_empty()).unwrap_or(false) {
        rows.pop();
    }
    let n = rows.len();
    ensure!(n >= 3 && rows[n - 1] == ">" && rows[n - 2] == "stat", "the display is not as before:\n{}", s.vt.dump());
    rows.truncate(n - 2);
    let last = rows.iter().position(|r| r == "last").unwrap_or(0);
    ensure!(rows[last + 1..].iter().all(|r| r.starts_with('n')), "something overtaken by a line printed later:\n{}", trunc(&s.vt.dump(), 3000));
    rows.remove(last);
    let mut next = vec![0; nt];
    let mut seen_n = vec![];
    for (i, r) in rows.iter().enumerate() {
        if r.starts_with('n') {
            seen_n.push((r.clone(), i));
            continue;
        }
        let t: usize = r.split(':').next().and_then(|x| x.parse().ok()).unwrap_or(99);
        ensure!(t < nt && want[t].get(next[t]) == Some(r), "row {} shows {:?}; thread {} should be at {:?}\n{}", i, r, t, want.get(t).and_then(|w| w.get(next[t])), trunc(&s.vt.dump(), 1500));
        next[t] += 1;
    }
    for t in 0..nt {
        ensure!(next[t] == want[t].len(), "{} lines of thread {} appeared instead of {}", next[t], t, want[t].len());
    }
    for (x, after) in &nested {
        let p: Vec<usize> = seen_n.iter().filter(|y| &y.0 == x).map(|y| y.1).collect();
        ensure!(p.len() == 1, "line {:?} printed by a suspended function appeared {} times", x, p.len());
        let f = rows.iter().position(|r| r == after).unwrap();
        ensure!(p[0] > f, "line {:?} printed by a suspended function appeared before the function was through", x);
    }
    ensure!(seen_n.len() == nested.len(), "lines {:?}", seen_n);
    let log = s.call(Cmd::TakeLog)?.lines;
    ensure!(log.len() == 2 * nf, "{} log entries instead of {}", log.len(), 2 * nf);
    for x in log.chunks(2) {
        ensure!(x[1] == format!("termios {}", s.termios0), "settings inside a suspended function: {}, outside the library: {}", x[1], s.termios0);
    }
    c.count("functions", nf as u64);
    c.count("lines", next.iter().sum::<usize>() as u64);
    // typing goes on
    s.write_in(b"abc\r")?;
    s.sync()?;
    let r = s.drain()?;
    ensure!(r.len() == 1 && r[0].0 == Resp::Input("abc".into()), "typing after the suspensions: {:?}", r);
    Ok(())
}

/// Some keys that are processed without waiting for anything.
fn few_keys(r: &mut Rng) -> Vec<Key> {
    (0..r.range(1, 6))
        .map(|_| match r.below(8) {
            0 => Key::Ctl(13),
            1 => Key::Ctl(2),
            2 => Key::Ctl(1),
            3 => Key::Ctl(21),
            _ => Key::Ch(*r.pick(&['a', 'q', 'w', '7', ' '])),
        })
        .collect()
}
/// Control-Z.
fn s_ctrlz(c: &mut Ctx) -> R<()> {
    let mut o = any_term(&mut c.rng);
    o.h = o.h.max(14);
    c.count(&format!("sessions_{}", kind(&o)), 1);
    let mut d = Drv::start(o)?;
    d.s.call(Cmd::SetClone)?;
    let raw = d.s.termios();
    for _ in 0..5 {
        let n = *c.rng.pick(&[0, 1, 2, 4]);
        use_it(c, &mut d, n, true)?;
        if !d.ui.ed.allowed {
            // ignored then
            if c.rng.chance(1, 3) {
                d.s.write_in(b"\x1a")?;
                d.check()?;
                ensure!(d.s.state() != 'T', "stopped by control-Z while input is not allowed");
            }
            d.cmd(Cmd::Prompt(ML::plain("now> "), true, c.rng.chance(1, 2)))?;
        }
        if c.rng.chance(1, 2) {
            let ks: Vec<Key> = "some text typed".chars().take(c.rng.range(1, 15)).map(Key::Ch).collect();
            d.keys(&ks)?;
            let back = c.rng.below(ks.len());
            d.keys(&vec![Key::Ctl(2); back])?;
        }
        // (a notice is dismissed first)
        d.check()?;
        d.ui.notice = None;
        // (other keys may be on their way along with it)
        let mut bytes = vec![];
        if c.rng.chance(1, 3) {
            for k in few_keys(&mut c.rng) {
                k.bytes(&mut bytes);
                d.model_key(k);
            }
        }
        let (live, cpos) = d.ui.live();
        c.sig(&format!("{} {:?}", live.len(), cpos));
        bytes.push(0x1a);
        let tail = if c.rng.chance(1, 2) { few_keys(&mut c.rng) } else { vec![] };
        for k in &tail {
            k.bytes(&mut bytes);
        }
        c.count("keys_along_with_it", bytes.len() as u64 - 1);
        d.s.write_in(&bytes)?;
        let end = Instant::now() + Duration::from_secs(8);
        while d.s.state() != 'T' {
            d.s.pump();
            if Instant::now() > end {
                return Err(d.s.stuck("control-Z does not stop the process"));
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        // (all it has written is there)
        std::thread::sleep(Duration::from_millis(1));
        d.s.pump();
        c.count("stopped", 1);
        modes_ok(&d.s).or_else(viol)?;
        ensure!(d.s.vt.cx == 0, "the cursor is in column {} while the process is stopped\n{}", d.s.vt.cx, d.s.vt.dump());
        let stop = d.s.vt.abs_row();
        // what was printed before is still there
        let base = d.s.base_rows;
        for (i, r) in d.ui.rows.iter().enumerate() {
            d.s.cmp(d.s.vt.row(base + i), r).or_else(|e| viol(format!("row {} after control-Z: {}\n{}", base + i, e, d.s.vt.dump())))?;
        }
        let below = base + d.ui.rows.len();
        ensure!(stop > below && stop <= below + live.len() + 1, "the cursor is in row {}, the printed lines end above row {}\n{}", stop, below, d.s.vt.dump());
        for r in stop..d.s.vt.total_rows() {
            ensure!(row_text(d.s.vt.row(r)).trim().is_empty(), "something below the cursor while the process is stopped\n{}", d.s.vt.dump());
        }
        if let Some((cr, cc)) = cpos {
            if cc + 2 <= d.ui.w && !d.ui.any_cursor {
                for (i, r) in live.iter().take(cr).enumerate() {
                    d.s.cmp(d.s.vt.row(below + i), r).or_else(|e| viol(format!("row {} after control-Z: {}\n{}", below + i, e, d.s.vt.dump())))?;
                }
                let t = row_text(d.s.vt.row(below + cr));
                ensure!(t.trim_end().ends_with("^Z"), "row {} does not show ^Z: {:?}\n{}", below + cr, t, d.s.vt.dump());
                ensure!(stop == below + cr + 1, "cursor in row {} instead of {}", stop, below + cr + 1);
            }
        }
        if c.rng.chance(1, 3) {
            std::thread::sleep(Duration::from_millis(c.rng.below(20) as u64));
        }
        // the shell may write something in between
        if c.rng.chance(1, 3) {
            d.s.vt.feed(b"shell says\r\n");
        }
        d.s.base_rows = d.s.vt.abs_row();
        d.s.opts.prerows.clear();
        d.ui.rows.clear();
        for k in &tail {
            d.model_key(*k);
        }
        d.s.signal(libc::SIGCONT);
        d.s.settle(Duration::from_millis(3000), |s| {
            if s.termios() == raw {
                Ok(())
            } else {
                Err(format!("terminal settings after continuing are {}, were {}", s.termios(), raw))
            }
        })?;
        d.check()?;
        c.count("continued", 1);
        let ks: Vec<Key> = "more".chars().take(c.rng.range(0, 4)).map(Key::Ch).collect();
        d.keys(&ks)?;
        d.check()?;
    }
    d.check_resps()?;
    timed(&mut d.s, die_cmd(&mut c.rng))?;
    let ui = d.ui.clone();
    settle_given_back(&mut d.s, &ui)?;
    Ok(())
}

pub fn c16() -> Check {
    Check {
        id: "C16",
        level: "exploration",
        rule: "suspended functions held open by a gate while the terminal settings, modes, screen and cursor are observed, in random states of display and line; functions and output from several threads; control-Z with the process observed while stopped, then continued. Distinct: by the calls and keys before",
        assumptions: vec!["terminal behaviour as in the emulator"],
        scens: vec![
            scen("inside", 700, s_inside),
            scen("mix", 400, s_mix).racy(),
            scen("ctrlz", 600, s_ctrlz),
        ],
    }
}

// ------------------------------------------------------------------- C23

/// The panic message `mark` among what was written from `from` on, with the
/// state of the terminal when it started. `strict`: nothing else was going on.
fn message(s: &Sess, from: usize, mark: &str, strict: bool) -> Result<(), String> {
    let raw = &s.raw;
    let find = |hay: &[u8], n: &[u8]| hay.windows(n.len()).position(|w| w == n);
    let Some(m) = find(&raw[from..], mark.as_bytes()) else {
        return Err(format!("the message {:?} did not appear: {:?}", mark, trunc(&String::from_utf8_lossy(&raw[from..]), 500)));
    };
    let m = m + from;
    let Some(start) = (from..m).rev().find(|i| raw[*i..].starts_with(b"thread '")) else {
        return Err(format!("no panic message: {:?}", trunc(&String::from_utf8_lossy(&raw[from..]), 500)));
    };
    // (its newlines are converted, so that it is no staircase)
    let mut end = m + mark.len();
    while end < raw.len() && raw[end] != b'\n' {
        end += 1;
    }
    for i in start..(end + 1).min(raw.len()) {
        if raw[i] == b'\n' && raw[i - 1] != b'\r' {
            return Err(format!("the terminal was in raw mode when the message was printed: {:?}", String::from_utf8_lossy(&raw[start..end])));
        }
    }
    if !strict {
        return Ok(());
    }
    let o = &s.opts;
    let mut vt = Vt::new(o.flavor, o.w, o.h);
    if o.flavor == Flavor::Vt52 {
        let (f, b) = pal_attr(Attr::default(), o.pal);
        vt.start52(f, b);
    }
    vt.feed(&raw[..from]);
    // (a panic at the same time as output may have torn a sequence)
    vt.unknown.clear();
    vt.feed(&raw[from..start]);
    if !vt.in_ground() {
        return Err("the message started within an escape sequence".into());
    }
    if !vt.visible {
        return Err("the cursor was hidden when the message was printed".into());
    }
    if !vt.wrap {
        return Err("line wrap was off when the message was printed".into());
    }
    let plain = match o.flavor {
        Flavor::Ansi => vt.attr == Attr::default(),
        Flavor::Vt52 => {
            let (f, b) = pal_attr(Attr::default(), o.pal);
            let k = o.pal.0 - 1;
            !vt.inv52 && (vt.fg52 & k, vt.bg52 & k) == (f & k, b & k)
        }
    };
    if !plain {
        return Err(format!("attributes were {:?} {} {} when the message was printed", vt.attr, vt.fg52, vt.bg52));
    }
    let (r, x) = (vt.abs_row(), vt.cx);
    let blank = |c: &Cell| c.ch == ' ';
    for q in r..vt.total_rows() {
        let row = vt.row(q);
        let skip = if q == r { x } else { 0 };
        if !row.iter().skip(skip).all(blank) {
            return Err(format!("something was left below the cursor when the message was printed:\n{}", vt.dump()));
        }
    }
    if !vt.unknown.is_empty() {
        return Err(format!("unexpected sequences: {:?}", vt.unknown));
    }
    Ok(())
}
fn tty_err(r: &mut Rng) -> Opts {
    let mut o = any_term(r);
    o.prerows.clear();
    o.stderr_tty = true;
    o
}
/// After the instance is gone: panics are the program's business alone.
fn hook_gone(c: &mut Ctx, s: &mut Sess, hook: &Option<String>, n: &str) -> R<()> {
    s.sync()?;
    let from = s.raw.len();
    let mark = format!("after-{}", n);
    s.call(Cmd::PanicThread(mark.clone()))?;
    s.sync()?;
    let new = s.raw[from..].to_vec();
    match hook {
        Some(h) => ensure!(new == h.as_bytes(), "a panic after shutting down wrote {:?} instead of just calling the program's own hook", String::from_utf8_lossy(&new)),
        None => {
            ensure!(!new.contains(&0x1b), "a panic after shutting down wrote to the terminal: {:?}", String::from_utf8_lossy(&new));
            message(s, from, &mark, false).or_else(viol)?;
        }
    }
    c.count("panics_after_shutdown", 1);
    Ok(())
}
fn s_panic(c: &mut Ctx) -> R<()> {
    let o = tty_err(&mut c.rng);
    c.count(&format!("sessions_{}", kind(&o)), 1);
    let (w, h) = (o.w, o.h);
    let mut s = Sess::start(o)?;
    let hook = if c.rng.chance(1, 2) { Some("<the program's hook>".to_string()) } else { None };
    if let Some(h) = &hook {
        s.call(Cmd::SetHook(h.clone()))?;
    }
    s.call(Cmd::New)?;
    s.sync()?;
    let mut d = Drv { s, ui: Ui::new(w, h), want: vec![], bells: 0, comp: None, calls: vec![] };
    for inst in 0..2 {
        d.s.call(Cmd::SetClone)?;
        let n = *c.rng.pick(&[0, 1, 2, 5]);
        use_it(c, &mut d, n, true)?;
        // suspensions in between
        for _ in 0..c.rng.below(3) {
            if c.rng.chance(1, 3) && d.ui.ed.allowed && d.s.opts.flavor == Flavor::Ansi {
                d.s.sync()?;
                d.s.write_in(b"\x1a")?;
                let end = Instant::now() + Duration::from_secs(8);
                while d.s.state() != 'T' && Instant::now() < end {
                    d.s.pump();
                    std::thread::sleep(Duration::from_micros(100));
                }
                d.s.signal(libc::SIGCONT);
                c.count("ctrl_z", 1);
            } else {
                d.s.call(Cmd::Suspend(vec![]))?;
                c.count("suspensions", 1);
            }
            d.s.sync()?;
        }
        let n = *c.rng.pick(&[0, 0, 1]);
        // (the model of the screen may be off after a suspension; only the
        // state of the display matters here)
        use_it(c, &mut d, n, true)?;
        d.s.sync()?;
        let from = d.s.raw.len();
        let mark = format!("mark{}", inst);
        let what = c.rng.below(if d.ui.ed.allowed { 7 } else { 6 });
        c.sig(&format!("{} {} {}", what, d.s.opts.term, hook.is_some()));
        c.count(
            ["panics_main", "panics_thread", "panics_many", "panics_while_suspended_function_runs", "panics_in_suspended_function", "panics_busy", "panics_in_completor"][what],
            1,
        );
        let mut dead = false;
        let own_hook_used = matches!(what, 3 | 4) && hook.is_some();
        match what {
            0 => {
                d.s.call_raw(Cmd::Panic(mark.clone()))?;
            }
            1 => {
                d.s.call(Cmd::PanicThread(mark.clone()))?;
            }
            2 => {
                d.s.call(Cmd::PanicMany(c.rng.range(2, 6) as u32, mark.clone()))?;
            }
            3 => {
                let g = 100 + inst as u32;
                d.s.call(Cmd::Suspend(vec![SAct::Gate(g)]))?;
                d.s.sync()?;
                d.s.call(Cmd::PanicThread(mark.clone()))?;
                d.s.sync()?;
                modes_ok(&d.s).or_else(viol)?;
                d.s.call(Cmd::OpenGate(g))?;
            }
            4 => {
                d.s.call(Cmd::Suspend(vec![SAct::Panic(mark.clone())]))?;
                dead = true;
            }
            5 => {
                let k = c.rng.range(1, 40);
                let progs = vec![(0..k).map(|i| TOp::Print(ML::plain(format!("b{}", i)))).collect()];
                d.s.call(Cmd::Spawn(progs, false))?;
                d.s.call(Cmd::PanicThread(mark.clone()))?;
                d.s.call(Cmd::Join)?;
            }
            _ => {
                d.s.call(Cmd::SetCompletor(1, vec![CompAct::Panic(mark.clone())]))?;
                d.s.sync()?;
                d.s.write_in(b"\t")?;
                dead = true;
            }
        }
        d.s.sync()?;
        if own_hook_used {
            let t = String::from_utf8_lossy(&d.s.raw[from..]).to_string();
            ensure!(t.contains(hook.as_ref().unwrap()), "a panic while suspended did not call the program's own hook: {:?}", t);
        } else {
            d.s.settle(Duration::from_millis(1000), |s| message(s, from, &mark, what != 5))?;
            c.count("messages", 1);
        }
        if what != 3 {
            d.s.settle(Duration::from_millis(1000), |s| {
                if s.termios() == s.termios0 {
                    Ok(())
                } else {
                    Err(format!("terminal settings after a panic: {}, originally {}", s.termios(), s.termios0))
                }
            })?;
        }
        if dead {
            d.s.settle(Duration::from_millis(1500), modes_ok_m)?;
            for _ in 0..200 {
                let Some(r) = d.s.call_t(Cmd::Read(ReadMode::Blocking), Duration::from_secs(15))? else {
                    return Err(d.s.stuck("reading hangs after a callback panicked"));
                };
                ensure!(r.panic.is_none() && r.resps.len() == 1, "reading after a callback panicked: {:?}", r);
                if r.resps[0].0 == Resp::Dead {
                    dead = false;
                    break;
                }
            }
            ensure!(!dead, "never dead after a callback panicked");
        }
        let how = die_cmd(&mut c.rng);
        timed(&mut d.s, how)?;
        d.s.call(Cmd::DropClone)?;
        d.s.settle(Duration::from_millis(1500), modes_ok_m)?;
        if c.rng.chance(2, 3) {
            hook_gone(c, &mut d.s, &hook, &format!("{}", inst))?;
        }
        // standard input is the program's again
        let m = format!("in{}\n", inst);
        d.s.write_in(m.as_bytes())?;
        let Some(l) = d.s.call_t(Cmd::ReadStdinLine, Duration::from_secs(10))? else {
            return Err(d.s.stuck("reading from standard input after shutting down hangs"));
        };
        ensure!(l.lines[0] == m, "read {:?} from standard input after shutting down, typed {:?}", l.lines, m);
        if inst == 0 {
            d.s.sync()?;
            d.s.base_rows = d.s.vt.abs_row();
            d.ui = Ui::new(w, h);
            d.want.clear();
            d.s.call(Cmd::New)?;
            d.s.sync()?;
            d.s.write_in(b"ok\r")?;
            d.s.sync()?;
            let r = d.s.drain()?;
            ensure!(r.len() == 1 && r[0].0 == Resp::Input("ok".into()), "typing to a new instance: {:?}", r);
            d.s.vt.unknown.clear();
        }
    }
    Ok(())
}

/// The terminal is lost; the program's panic hook is not.
fn s_lost(c: &mut Ctx) -> R<()> {
    let mut o = any_term(&mut c.rng);
    o.prerows.clear();
    c.count(&format!("sessions_{}", kind(&o)), 1);
    let (w, h) = (o.w, o.h);
    let mut s = Sess::start(o)?;
    s.call(Cmd::InstallHup)?;
    s.call(Cmd::SetHook("<the program's hook>".into()))?;
    s.call(Cmd::New)?;
    s.sync()?;
    let mut d = Drv { s, ui: Ui::new(w, h), want: vec![], bells: 0, comp: None, calls: vec![] };
    d.s.call(Cmd::SetClone)?;
    let n = c.rng.below(4);
    use_it(c, &mut d, n, true)?;
    d.s.hangup();
    c.sig(&format!("{}", c.idx));
    if c.rng.chance(1, 2) {
        let Some(_) = d.s.call_t(Cmd::Read(ReadMode::Blocking), Duration::from_secs(15))? else {
            return Err(d.s.stuck("reading did not return after the terminal hung up"));
        };
    }
    timed(&mut d.s, die_cmd(&mut c.rng))?;
    let before = d.s.stderr_tail();
    d.s.call(Cmd::PanicThread("after".into()))?;
    let after = d.s.stderr_tail();
    ensure!(
        after.ends_with("<the program's hook>") && after.len() > before.len(),
        "after the terminal was lost and the instance shut down, a panic does not call the program's own hook; stderr: {:?}",
        after
    );
    c.count("panics_after_shutdown", 1);
    Ok(())
}

pub fn c23() -> Check {
    Check {
        id: "C23",
        level: "exploration",
        rule: "panics in the main thread, in one or many threads, in a completor, in a suspended function, while one runs, while another thread prints, after suspensions, in random states; the emulated terminal at the first byte of the message and the line discipline's treatment of the message are checked, then shutting down, the hook afterwards, standard input and another instance. Distinct: by state, place of the panic and hook",
        assumptions: vec!["terminal behaviour as in the emulator", "output by other threads at the very moment of the panic may come between"],
        scens: vec![scen("panic", 900, s_panic).racy(), scen("lost", 200, s_lost).racy()],
    }
}
