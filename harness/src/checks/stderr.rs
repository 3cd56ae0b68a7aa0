//! C22: capture of standard error (needs a build with that feature).
use super::*;


fn shown(text: &[u8]) -> ML {
    let t = String::from_utf8_lossy(text).to_string();
    let t = t.strip_suffix('\r').unwrap_or(&t).to_string();
    let red = Attr { s: 0, fg: Some(1), bg: None };
    let mut v = vec![Seg { t: "E: ".into(), a: Attr { s: bold(), ..red } }];
    if !t.is_empty() {
        v.push(Seg { t, a: red });
    }
    ML { v }
}
fn bold() -> u8 {
    let b = from_style(liso::Style::BOLD);

    b
}
fn gerr(r: &mut Rng) -> Vec<u8> {
    let mut v: Vec<u8> = match r.below(9) {
        0 => vec![],
        1 => gtext(r, 12, TextCfg { nl: false, ..TextCfg::RICH }).into_bytes(),
        2 => {
            let n = r.range(1, 30);
            // (bytes that never make up a character of more than one byte)
            (0..n).map(|_| if r.chance(1, 2) { r.below(128) as u8 } else { *r.pick(&[0x80, 0x9f, 0xbf, 0xc0, 0xc1, 0xf5, 0xf8, 0xfe, 0xff]) }).collect()
        }
        3 => {
            let k = *r.pick(&[128usize, 256, 384, 512]);
            let n = (k as i64 + *r.pick(&[-2i64, -1, 0, 1, 2])) as usize;
            (0..n).map(|i| b'a' + (i % 26) as u8).collect()
        }
        4 => {
            let n = r.range(100, 700);
            gtext(r, n, TextCfg { nl: false, ctl: false, ..TextCfg::RICH }).into_bytes()
        }
        5 if r.chance(1, 6) => {
            let n = r.range(1000, 30000);
            (0..n).map(|i| b'a' + (i % 23) as u8).collect()
        }
        _ => {
            let n = r.range(1, 30);
            gtext(r, n, TextCfg::SIMPLE).into_bytes()
        }
    };
    v.retain(|b| *b != b'\n');
    if r.chance(1, 12) {
        v.push(b'\r');
    }
    v
}
/// A random stream of lines in random writes, mixed with ordinary use.
fn s_lines(c: &mut Ctx) -> R<()> {
    let (w, h) = gsize(&mut c.rng);
    let mut o = Opts::new(w, h);
    o.stderr_tty = true;
    let o = super::life::perturb(&mut c.rng, o);
    let mut d = Drv::start(o)?;
    let cfg = UiCfg { styled: true, rich: c.rng.chance(1, 2), notices: true, clear: false };
    let mut partial: Vec<u8> = vec![];
    for _ in 0..25 {
        if c.rng.chance(1, 2) {
            let mut stream = vec![];
            for _ in 0..c.rng.range(1, 5) {
                stream.extend(gerr(&mut c.rng));
                stream.push(b'\n');
            }
            if c.rng.chance(1, 3) {
                stream.pop();
            }
            c.sig(&format!("{:?}", stream));
            let whole = c.rng.chance(1, 3);
            let mut p = 0;
            while p < stream.len() {
                let n = if whole { stream.len() } else { *c.rng.pick(&[1, 2, 3, 7, 50, 127, 128, 129, 300, 1000]) };
                let e = (p + n).min(stream.len());
                d.s.call(Cmd::StderrWrite(stream[p..e].to_vec()))?;
                c.count("writes", 1);
                for b in &stream[p..e] {
                    if *b == b'\n' {
                        d.ui.print(&shown(&partial));
                        partial.clear();
                        c.count("stderr_lines", 1);
                    } else {
                        partial.push(*b);
                    }
                }
                if !whole && c.rng.chance(1, 8) {
                    d.check()?;
                }
                p = e;
            }
        } else if c.rng.chance(1, 2) {
            let x = next_cmd(&mut c.rng, &d.ui, cfg);
            c.sig(&format!("{:?}", x));
            d.cmd(x)?;
        } else {
            let ks = next_keys(&mut c.rng, &d.ui, cfg, 4);
            d.keys(&ks)?;
        }
        d.check()?;
    }
    d.check_resps()?;
    Ok(())
}

fn occurrences(hay: &[u8], n: &str) -> usize {
    let n = n.as_bytes();
    hay.windows(n.len()).filter(|w| *w == n).count()
}
/// Several threads write to standard error and print.
fn s_threads(c: &mut Ctx) -> R<()> {
    let mut s = Sess::start(super::life::perturb(&mut c.rng, Opts { stderr_tty: true, ..Opts::new(60, 24) }))?;
    s.call(Cmd::New)?;
    s.sync()?;
    s.call(Cmd::Prompt(ML::plain("> "), true, false))?;
    let nt = c.rng.range(1, 5);
    let mut progs = vec![];
    let mut want: Vec<(Vec<String>, Vec<String>)> = vec![];
    for t in 0..nt {
        let (mut e, mut o, mut p) = (vec![], vec![], vec![]);
        for i in 0..c.rng.range(2, 60) {
            match c.rng.below(5) {
                0 => p.push(TOp::SleepUs(c.rng.below(300) as u64)),
                1 => {
                    let l = format!("o{}:{:03}", t, i);
                    p.push(TOp::Print(ML::plain(l.clone())));
                    o.push(l);
                }
                _ => {
                    let k = c.rng.range(1, 4);
                    let mut text = String::new();
                    for j in 0..k {
                        let l = format!("e{}:{:03}.{}{}", t, i, j, "x".repeat(c.rng.below(40)));
                        text += &l;
                        text.push('\n');
                        e.push(format!("E: {}", l));
                    }
                    p.push(TOp::Stderr(text));
                }
            }
        }
        c.count("stderr_lines", e.len() as u64);
        progs.push(p);
        want.push((e, o));
    }
    c.sig(&format!("{:?}", want));
    s.call(Cmd::Spawn(progs, c.rng.chance(1, 2)))?;
    s.call(Cmd::Join)?;
    s.sync()?;
    let mut rows: Vec<String> = (0..s.vt.total_rows()).map(|r| row_text(s.vt.row(r)).trim_end().to_string()).collect();
    while rows.last().map(|r| r.is_empty()).unwrap_or(false) {
        rows.pop();
    }
    ensure!(rows.pop().as_deref() == Some(">"), "no prompt at the end:\n{}", s.vt.dump());
    let mut next = vec![(0, 0); nt];
    for (i, r) in rows.iter().enumerate() {
        let (err, body) = match r.strip_prefix("E: ") {
            Some(b) => (true, b),
            None => (false, &r[..]),
        };
        let t: usize = body.get(1..).and_then(|x| x.split(':').next()).and_then(|x| x.parse().ok()).unwrap_or(99);
        let exp = want.get(t).and_then(|w| if err { w.0.get(next[t].0) } else { w.1.get(next[t].1) });
        ensure!(exp == Some(r), "row {} shows {:?}, the next line of that thread is {:?}\n{}", i, r, exp, trunc(&s.vt.dump(), 3000));
        if err {
            next[t].0 += 1
        } else {
            next[t].1 += 1
        }
    }
    for t in 0..nt {
        ensure!(next[t] == (want[t].0.len(), want[t].1.len()), "thread {}: {:?} lines appeared, written {:?}", t, next[t], (want[t].0.len(), want[t].1.len()));
    }
    Ok(())
}

/// Instances come and go.
fn s_cycles(c: &mut Ctx) -> R<()> {
    let mut s = Sess::start(super::life::perturb(&mut c.rng, Opts { stderr_tty: true, ..Opts::new(60, 24) }))?;
    let fds = s.call(Cmd::Fds012)?.lines;
    let mut first = None;
    for round in 0..c.rng.range(2, 8) {
        let from = s.raw.len();
        let mut once = vec![];
        let before = format!("<b{}>", round);
        s.call(Cmd::StderrWrite(format!("{}\n", before).into_bytes()))?;
        s.call(Cmd::New)?;
        s.sync()?;
        for i in 0..c.rng.below(6) {
            let l = format!("<l{}.{}>", round, i);
            s.call(Cmd::StderrWrite(format!("{}\n", l).into_bytes()))?;
            once.push(l);
        }
        s.sync()?;
        for l in &once {
            let seen = (0..s.vt.total_rows()).filter(|r| row_text(s.vt.row(*r)).trim_end() == format!("E: {}", l)).count();
            ensure!(seen == 1, "line {:?} is shown {} times\n{}", l, seen, trunc(&s.vt.dump(), 3000));
        }
        // what comes last: half a line, or lines only just written
        let how_last = c.rng.below(4);
        let part = format!("<p{}>", round);
        let mut late = vec![];
        match how_last {
            0 => {
                s.call(Cmd::StderrWrite(part.clone().into_bytes()))?;
                s.sync()?;
                once.push(part);
            }
            1 | 2 => {
                let k = c.rng.range(1, 30);
                for i in 0..k {
                    let l = format!("<z{}.{}>", round, i);
                    s.call(Cmd::StderrWrite(format!("{}\n", l).into_bytes()))?;
                    late.push(l);
                }
            }
            _ => {}
        }
        c.sig(&format!("{} {} {}", once.len(), how_last, late.len()));
        let t = Instant::now();
        s.call(c.rng.pick(&[Cmd::Drop, Cmd::BlockingDie, Cmd::DieAsync]).clone())?;
        if t.elapsed() > Duration::from_secs(5) {
            return Err(Fail::Soft(format!("shutting down took {:?}", t.elapsed())));
        }
        s.sync()?;
        let out = &s.raw[from..];
        ensure!(occurrences(out, &before) == 1, "line {:?} written before the instance was there appeared {} times", before, occurrences(out, &before));
        for l in &once {
            ensure!(occurrences(out, l) == 1, "{:?} appeared {} times: {:?}", l, occurrences(out, l), trunc(&String::from_utf8_lossy(out), 2000));
        }
        // (these may be shown either way)
        let mut last = 0;
        for l in &late {
            let n = occurrences(out, l);
            ensure!(n <= 1, "{:?} appeared {} times", l, n);
            c.count(if n == 1 { "late_lines_shown" } else { "late_lines_lost" }, 1);
            if n == 1 {
                let p = out.windows(l.len()).position(|w| w == l.as_bytes()).unwrap();
                ensure!(p >= last, "{:?} appeared too early: {:?}", l, trunc(&String::from_utf8_lossy(out), 2000));
                last = p;
            }
        }
        ensure!(s.termios() == s.termios0, "terminal settings after shutting down: {}", s.termios());
        let f = s.call(Cmd::Fds012)?.lines;
        ensure!(f == fds, "standard descriptors {:?}, were {:?}", f, fds);
        let a = format!("<a{}>", round);
        let from = s.raw.len();
        s.call(Cmd::StderrWrite(format!("{}\n", a).into_bytes()))?;
        s.sync()?;
        ensure!(s.raw[from..] == *format!("{}\r\n", a).as_bytes(), "standard error after shutting down: {:?}", String::from_utf8_lossy(&s.raw[from..]));
        let end = Instant::now() + Duration::from_secs(3);
        while s.threads() > 1 && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(2));
        }
        let now = (s.threads(), s.call(Cmd::FdIds)?.lines);
        ensure!(now.0 == 1, "{} threads are left", now.0);
        match &first {
            None => first = Some(now),
            Some(f) => ensure!(*f == now, "descriptors {:?} after round {}, {:?} after the first", now.1, round, f.1),
        }
        c.count("shutdowns", 1);
    }
    Ok(())
}

/// Threads go on writing to standard error while the instance goes away.
fn s_race(c: &mut Ctx) -> R<()> {
    let mut s = Sess::start(super::life::perturb(&mut c.rng, Opts { stderr_tty: true, ..Opts::new(60, 24) }))?;
    let fds = s.call(Cmd::Fds012)?.lines;
    for round in 0..4 {
        let from = s.raw.len();
        s.call(Cmd::New)?;
        let nt = c.rng.range(1, 4);
        let mut progs = vec![];
        let mut want = vec![];
        for t in 0..nt {
            let mut p = vec![];
            for i in 0..c.rng.range(5, 150) {
                let l = format!("<r{}.{}.{}>", round, t, i);
                p.push(TOp::Stderr(format!("{}\n", l)));
                if c.rng.chance(1, 10) {
                    p.push(TOp::SleepUs(c.rng.below(200) as u64));
                }
                want.push(l);
            }
            progs.push(p);
        }
        c.sig(&format!("{:?}", want.len()));
        s.call(Cmd::Spawn(progs, false))?;
        if c.rng.chance(2, 3) {
            s.call(Cmd::Sleep(c.rng.below(4) as u64))?;
        }
        let t = Instant::now();
        s.call(c.rng.pick(&[Cmd::Drop, Cmd::BlockingDie, Cmd::DieAsync]).clone())?;
        if t.elapsed() > Duration::from_secs(5) {
            return Err(Fail::Soft(format!("shutting down took {:?}", t.elapsed())));
        }
        s.call(Cmd::Join)?;
        s.sync()?;
        let out = &s.raw[from..];
        let mut n_shown = 0;
        for l in &want {
            let n = occurrences(out, l);
            ensure!(n <= 1, "{:?} appeared {} times", l, n);
            n_shown += n;
        }
        c.count("race_lines_shown", n_shown as u64);
        c.count("race_lines_lost", (want.len() - n_shown) as u64);
        // nothing is invented (but a line may be torn in two: the code says
        // so)
        let total = occurrences(out, "<r");
        ensure!(total >= n_shown && total <= want.len(), "{} lines appeared whole, {} beginnings, {} were written", n_shown, total, want.len());
        c.count("race_lines_torn", (total - n_shown) as u64);
        ensure!(s.termios() == s.termios0, "terminal settings after shutting down: {}", s.termios());
        let f = s.call(Cmd::Fds012)?.lines;
        ensure!(f == fds, "standard descriptors {:?}, were {:?}", f, fds);
    }
    Ok(())
}

/// A new instance is created as soon as that is possible, while the old one is
/// being shut down by another thread.
fn s_handover(c: &mut Ctx) -> R<()> {
    let mut s = Sess::start(super::life::perturb(&mut c.rng, Opts { stderr_tty: true, ..Opts::new(60, 24) }))?;
    let fds = s.call(Cmd::Fds012)?.lines;
    s.call(Cmd::New)?;
    s.sync()?;
    for round in 0..8 {
        let (a, b) = (*c.rng.pick(&[0, 50, 200, 1000]), *c.rng.pick(&[0, 50, 300, 1500]));
        let r = match s.call_t(Cmd::RaceRecreate(a, b), Duration::from_secs(25))? {
            Some(r) => r,
            None => return Err(s.stuck("shutting down while another thread creates an instance hangs")),
        };
        ensure!(r.panic.is_none(), "panic: {:?}", r.panic);
        c.count("attempts", r.us);
        c.count("handovers", 1);
        s.sync()?;
        let from = s.raw.len();
        let l = format!("<h{}.{}>", c.idx, round);
        s.call(Cmd::StderrWrite(format!("{}\n", l).into_bytes()))?;
        s.sync()?;
        let n = occurrences(&s.raw[from..], &l);
        ensure!(n == 1, "a line written to standard error appeared {} times after a new instance had replaced the old one", n);
        let shown = (0..s.vt.total_rows()).filter(|r| row_text(s.vt.row(*r)).trim_end().ends_with(&format!("E: {}", l))).count();
        ensure!(shown == 1, "a line written to standard error was not captured by the instance that had replaced the old one\n{}", trunc(&s.vt.dump(), 3000));
        c.count("stderr_lines", 1);
        c.sig(&format!("{} {} {}", a, b, r.us.min(50)));
    }
    s.call(Cmd::Drop)?;
    let f = s.call(Cmd::Fds012)?.lines;
    ensure!(f == fds, "standard descriptors {:?}, were {:?}", f, fds);
    Ok(())
}

/// Single lines of more than a pipe holds, and thousands of lines at once.
fn s_huge(c: &mut Ctx) -> R<()> {
    let mut o = Opts::new(*c.rng.pick(&[80, 200, 400]), 24);
    o.stderr_tty = true;
    let mut d = Drv::start(super::life::perturb(&mut c.rng, o))?;
    d.cmd(Cmd::Prompt(ML::plain("> "), true, false))?;
    d.keys(&[Key::Ch('i')])?;
    d.check()?;
    for round in 0..2 {
        let mut lines: Vec<Vec<u8>> = vec![];
        match (c.idx + round) % 3 {
            0 => {
                let k = *c.rng.pick(&[1usize << 15, 1 << 16, 1 << 16, 100_000, 1 << 17, 1 << 18]);
                let n = (k as i64 + c.rng.range(0, 600) as i64 - 300) as usize;
                lines.push((0..n).map(|i| b'a' + ((i / 3 + i / 1000) % 26) as u8).collect());
            }
            1 => {
                for i in 0..c.rng.range(2000, 6000) {
                    lines.push(if i % 5 == 0 { vec![] } else { format!("{}{}", i, "-".repeat(i % 37)).into_bytes() });
                }
            }
            _ => {
                for i in 0..c.rng.range(5, 60) {
                    let n = c.rng.range(1, 5000);
                    lines.push((0..n).map(|j| b'a' + ((i + j / 7) % 26) as u8).collect());
                }
            }
        }
        let mut stream = vec![];
        for l in &lines {
            d.ui.print(&shown(l));
            stream.extend_from_slice(l);
            stream.push(b'\n');
        }
        c.count("stderr_lines", lines.len() as u64);
        c.count("bytes", stream.len() as u64);
        c.sig(&format!("{} {}", lines.len(), stream.len()));
        d.s.call(Cmd::StderrWrite(stream))?;
        d.check()?;
        d.keys(&[Key::Ch('j'), Key::Left])?;
        d.check()?;
    }
    d.check_resps()
}

/// Standard error is not the terminal: none of our business.
fn s_elsewhere(c: &mut Ctx) -> R<()> {
    let pipe = c.rng.chance(1, 2);
    let mut o = if pipe { Opts { plain_tty: true, stderr_tty: true, ..Opts::pipes(40, 10) } } else { Opts::new(40, 10) };
    if !pipe {
        o.stderr_tty = false;
    }
    let mut s = Sess::start(o)?;
    s.call(Cmd::New)?;
    s.sync()?;
    let fds = s.call(Cmd::Fds012)?.lines;
    for i in 0..5 {
        let raw = s.raw.len();
        let before = s.stderr_tail();
        s.call(Cmd::StderrWrite(format!("line {}\n", i).into_bytes()))?;
        s.sync()?;
        c.count("stderr_lines", 1);
        if !pipe {
            ensure!(s.raw.len() == raw, "something was written to the terminal: {:?}", String::from_utf8_lossy(&s.raw[raw..]));
            ensure!(s.stderr_tail() == format!("{}line {}\n", before, i), "standard error got {:?}", s.stderr_tail());
        } else {
            ensure!(occurrences(&s.raw, "E: ") == 0, "captured in pipe mode");
        }
    }
    s.call(Cmd::Drop)?;
    let f = s.call(Cmd::Fds012)?.lines;
    ensure!(f == fds, "standard descriptors {:?}, were {:?}", f, fds);
    c.sig(&format!("{}", c.idx));
    Ok(())
}

pub fn c22() -> Check {
    Check {
        id: "C22",
        level: "exploration",
        rule: "random and adversarial byte streams (lengths around the buffer size, invalid UTF-8, control characters, empty lines) in random writes on a captured standard error, mixed with ordinary use, from several threads, and while instances come and go. Distinct: by the streams and schedules",
        assumptions: vec!["lines that are being written at the very moment of shutting down may be lost (as documented in the code), but never repeated"],
        scens: vec![
            scen("lines", 2500, s_lines),
            scen("threads", 800, s_threads).racy(),
            scen("cycles", 800, s_cycles).racy(),
            scen("race", 600, s_race).racy(),
            scen("storm", 60, super::life::s_storm).racy().solo(),
            scen("handover", 300, s_handover).racy(),
            scen("elsewhere", 60, s_elsewhere),
            scen("huge", 40, s_huge),
        ],
    }
}
