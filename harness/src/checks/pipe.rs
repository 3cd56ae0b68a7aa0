//! C12 pipe mode, C15 custom values and ways of reading.
use super::*;
use std::collections::HashMap;

/// A session in pipe mode in one of its configurations.
fn conf(r: &mut Rng) -> (Opts, &'static str) {
    let (o, k) = conf0(r);
    (super::life::perturb(r, o), k)
}
fn conf0(r: &mut Rng) -> (Opts, &'static str) {
    let w = *r.pick(&[8, 20, 80]);
    let mut o = Opts::new(w, 24);
    o.plain_tty = true;
    let term = |r: &mut Rng| r.pick(&["xterm", "dumb", "vt52", "", "pipe", "linux", "atari"]).to_string();
    match r.below(5) {
        0 | 1 => {
            o.stdin_pipe = true;
            o.stdout_pipe = true;
            o.term = term(r);
            (o, "pipe-pipe")
        }
        2 => {
            o.stdout_pipe = true;
            o.term = term(r);
            (o, "tty-pipe")
        }
        3 => {
            o.stdin_pipe = true;
            o.term = term(r);
            (o, "pipe-tty")
        }
        _ => {
            o.term = r.pick(&["dumb", "pipe"]).to_string();
            (o, "tty-tty")
        }
    }
}

/// The text of a line, control characters being represented as `Line` does.
fn shown(l: &ML) -> String {
    l.chars().iter().map(|x| x.0).collect()
}
fn show(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let n = t.chars().count();
    let s: String = t.chars().skip(n.saturating_sub(200)).collect();
    format!("{:?} ({} bytes)", s, b.len())
}
fn same_out(s: &mut Sess, exp: &[u8]) -> R<()> {
    if s.raw == exp {
        return Ok(());
    }
    s.settle(Duration::from_millis(1500), |s| {
        if s.raw == exp {
            return Ok(());
        }
        let k = s.raw.iter().zip(exp).take_while(|(a, b)| a == b).count();
        Err(format!(
            "output differs at byte {}: {} instead of {}",
            k,
            show(&s.raw[k..s.raw.len().min(k + 60)]),
            show(&exp[k..exp.len().min(k + 60)])
        ))
    })
}

/// A line of input: what is sent and what must arrive.
fn gin(r: &mut Rng, tty: bool) -> Vec<u8> {
    let mut v = vec![];
    let n = match r.below(12) {
        0 | 1 => 0,
        2 => 1,
        3 if !tty => *r.pick(&[4095, 4096, 8191, 8192, 8193, 20000, 70000]),
        4 => r.range(100, 400),
        5 if !tty && r.chance(1, 60) => *r.pick(&[300_000, 1_100_000, 2_200_000]),
        _ => r.range(1, 30),
    };
    let kind = r.below(4);
    if n > 0 && r.chance(1, 12) {
        v.extend(r.pick(&["\u{feff}", "\u{feff}\u{feff}", "\u{2028}", "\u{85}", "\u{a0}", " ", "\u{3000}", "#", "\u{301}"]).as_bytes());
    }
    for _ in 0..n {
        match r.below(12) {
            0..=6 => v.push(b' ' + r.below(95) as u8),
            7 => v.extend(r.pick(W2).to_string().as_bytes()),
            8 => v.extend("é\u{1F600}\u{7ff}\u{800}".as_bytes()),
            9 if !tty && kind > 0 => v.push(*r.pick(&[0u8, 1, 3, 4, 7, 8, 9, 0x1b, 0x7f, 0x0c, 0x1a, 0x1c])),
            10 if !tty && kind > 1 => v.extend(r.pick(&[&[0x80u8][..], &[0xff], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf8, 0x88], &[0xc0, 0xaf]]).iter()),
            11 if !tty && kind > 2 => {
                v.push(b'\r');
                v.push(b'x')
            }
            _ => v.push(b'a'),
        }
    }
    if n > 0 && r.chance(1, 12) {
        v.extend(r.pick(&[" ", "  ", "\u{a0}", "\u{3000}", "\u{feff}", "\u{2028}", "\\"]).as_bytes());
    }
    v
}
/// The delivered text for a line of bytes: valid parts as they are, something
/// in place of each invalid part.
fn line_ok(sent: &[u8], got: &str) -> bool {
    if let Ok(t) = std::str::from_utf8(sent) {
        return got == t;
    }
    let mut rest = got;
    let mut s = sent;
    loop {
        let (ok, bad) = match std::str::from_utf8(s) {
            Ok(t) => (t, 0),
            Err(e) => (
                std::str::from_utf8(&s[..e.valid_up_to()]).unwrap(),
                e.error_len().unwrap_or(s.len() - e.valid_up_to()),
            ),
        };
        let Some(x) = rest.strip_prefix(ok) else { return false };
        rest = x;
        s = &s[ok.len()..];
        if bad == 0 {
            return rest.is_empty();
        }
        // a run of invalid bytes: one or more replacement characters
        loop {
            match std::str::from_utf8(s) {
                Err(e) if e.valid_up_to() == 0 => s = &s[e.error_len().unwrap_or(s.len())..],
                _ => break,
            }
        }
        let t = rest.trim_start_matches('\u{fffd}');
        if t.len() == rest.len() {
            return false;
        }
        rest = t;
    }
}
/// What has been delivered; if something is missing, wait for it a little.
fn drain_n(s: &mut Sess, n: usize) -> R<Vec<(Resp, u8)>> {
    let mut got = s.drain()?;
    let end = Instant::now() + Duration::from_secs(3);
    while got.len() < n && Instant::now() < end {
        std::thread::sleep(Duration::from_millis(3));
        s.sync()?;
        got.extend(s.drain()?);
    }
    Ok(got)
}
enum Want {
    Line(Vec<u8>),
    Finish,
    Custom(u64),
}
fn want_ok(got: &[(Resp, u8)], want: &[Want]) -> R<()> {
    for (i, w) in want.iter().enumerate() {
        let Some((g, code)) = got.get(i) else {
            bail!("only {} of {} responses came", got.len(), want.len())
        };
        match (w, g) {
            (Want::Line(b), Resp::Input(t)) => {
                ensure!(line_ok(b, t), "input line {} delivered as {}", show(b), show(t.as_bytes()));
                ensure!(*code == 10, "input has code {}", code);
            }
            (Want::Finish, Resp::Finish) => ensure!(*code == 4, "finish has code {}", code),
            (Want::Custom(a), Resp::Custom(b)) if a == b => {}
            (Want::Line(b), g) => bail!("response {} is {:?} instead of the line {}", i, trunc(&format!("{:?}", g), 300), show(b)),
            (Want::Finish, g) => bail!("response {} is {:?} instead of the end of input", i, g),
            (Want::Custom(n), g) => bail!("response {} is {:?} instead of custom value {}", i, g, n),
        }
    }
    ensure!(got.len() == want.len(), "{} responses instead of {}: {:?}", got.len(), want.len(), trunc(&format!("{:?}", &got[want.len()..]), 300));
    Ok(())
}

/// Output calls, input lines and end of input, one after the other.
fn s_walk(c: &mut Ctx) -> R<()> {
    let (o, name) = conf(&mut c.rng);
    let tty_in = !o.stdin_pipe;
    c.count(&format!("sessions_{}", name), 1);
    let mut s = Sess::start(o.clone())?;
    s.call(Cmd::New)?;
    s.call(Cmd::SetClone)?;
    s.sync()?;
    let mut exp: Vec<u8> = vec![];
    let mut part: Vec<u8> = vec![];
    let mut eof = false;
    let mut custom = 0;
    let mut log = vec![];
    let mut last = ML::default();
    for step in 0..30 {
        let mut want = vec![];
        if c.rng.chance(3, 5) {
            for _ in 0..c.rng.range(1, 8) {
                let tc = TextCfg { zw: true, nl: c.rng.chance(1, 2), ..TextCfg::RICH };
                let n = *c.rng.pick(&[3, 3, 12, 12, 12, 40, 40, 40, 200, 200, 1200, 9000]);
                let l = match c.rng.below(10) {
                    0 => ML::default(),
                    1 => last.clone(),
                    _ => gline(&mut c.rng, n, tc, true),
                };
                last = l.clone();
                let via = c.rng.pick(&[Via::Io, Via::Clone, Via::Global]).clone();
                let cmd = match c.rng.below(16) {
                    0..=4 => Cmd::Print(via, l),
                    5..=7 => Cmd::Wrap(via, l),
                    8 => Cmd::Echo(l),
                    9 => Cmd::Status(if c.rng.chance(1, 3) { None } else { Some(l) }),
                    10 => Cmd::Prompt(l, c.rng.chance(1, 2), c.rng.chance(1, 2)),
                    11 => Cmd::Notice(l, c.rng.pick(&[Dur::Ms(0), Dur::Ms(1), Dur::Ms(5000), Dur::Max]).clone()),
                    12 => Cmd::Bell,
                    13 => Cmd::RemoveStatus,
                    14 => {
                        custom += 1;
                        if c.rng.chance(1, 2) { Cmd::Custom(custom) } else { Cmd::CustomBox(custom) }
                    }
                    _ => {
                        let t = format!("<{}>{}", step, c.rng.pick(&["", "\n"]));
                        log.push(t.clone());
                        Cmd::Suspend(vec![SAct::Log(t.clone()), SAct::Out(t)])
                    }
                };
                match &cmd {
                    Cmd::Print(_, l) | Cmd::Wrap(_, l) => {
                        exp.extend(shown(l).as_bytes());
                        exp.push(b'\n');
                        c.count("lines_printed", 1);
                    }
                    Cmd::Suspend(a) => {
                        if let Some(SAct::Out(t)) = a.last() {
                            exp.extend(t.as_bytes());
                        }
                        c.count("suspended", 1);
                    }
                    Cmd::Custom(n) | Cmd::CustomBox(n) => want.push(Want::Custom(*n)),
                    _ => c.count("silent_calls", 1),
                }
                c.sig(&format!("{:?}", cmd));
                s.call(cmd)?;
                if !want.is_empty() {
                    s.sync()?;
                }
            }
        } else if !eof {
            s.sync()?;
            let mut bytes = vec![];
            for _ in 0..c.rng.range(1, 6) {
                let l = gin(&mut c.rng, tty_in);
                c.sig(&format!("{:?}", l));
                bytes.extend(&l);
                part.extend(&l);
                if !tty_in && c.rng.chance(1, 8) {
                    continue;
                }
                c.count("lines_in", 1);
                if !tty_in && c.rng.chance(1, 4) && part.last() != Some(&b'\r') {
                    bytes.push(b'\r');
                }
                bytes.push(b'\n');
                want.push(Want::Line(std::mem::take(&mut part)));
            }
            // (chunks cut anywhere)
            let mut b = &bytes[..];
            while !b.is_empty() {
                let k = match c.rng.below(4) {
                    0 => 1,
                    1 => c.rng.range(1, 10),
                    2 => c.rng.range(1, 5000),
                    _ => b.len(),
                }
                .min(b.len());
                s.write_in(&b[..k])?;
                b = &b[k..];
                if c.rng.chance(1, 6) {
                    s.sync()?;
                }
            }
            if c.rng.chance(1, 8) && (!tty_in || part.is_empty()) {
                s.sync()?;
                eof = true;
                if tty_in {
                    s.write_in(&[4])?;
                } else {
                    s.in_w = None;
                }
                if !part.is_empty() {
                    want.push(Want::Line(std::mem::take(&mut part)));
                    c.count("unterminated_last_lines", 1);
                }
                want.push(Want::Finish);
                c.count("ends_of_input", 1);
            }
        }
        s.sync()?;
        same_out(&mut s, &exp)?;
        let got = drain_n(&mut s, want.len())?;
        want_ok(&got, &want)?;
        if s.slave.is_some() {
            ensure!(s.termios() == s.termios0, "terminal settings changed in pipe mode");
        }
        s.stats.screens += 1;
    }
    let lg = s.call(Cmd::TakeLog)?.lines;
    ensure!(lg == log, "functions run: {:?} instead of {:?}", lg, log);
    // what is still queued is printed before the end
    for i in 0..c.rng.below(4) {
        s.call(Cmd::Print(Via::Io, ML::plain(format!("last {}", i))))?;
        exp.extend(format!("last {}\n", i).as_bytes());
    }
    s.call(c.rng.pick(&[Cmd::Drop, Cmd::BlockingDie, Cmd::DieAsync]).clone())?;
    s.call(Cmd::StdoutWrite("end\n".into()))?;
    exp.extend(b"end\n");
    same_out(&mut s, &exp)?;
    c.count("bytes_compared", exp.len() as u64);
    Ok(())
}

/// Threads printing while input arrives; the reader of the output may be slow.
fn s_threads(c: &mut Ctx) -> R<()> {
    let (o, name) = conf(&mut c.rng);
    let tty_in = !o.stdin_pipe;
    c.count(&format!("sessions_{}", name), 1);
    let mut s = Sess::start(o)?;
    s.call(Cmd::New)?;
    let nt = c.rng.range(1, 6);
    let per = *c.rng.pick(&[5, 30, 150]);
    let mut progs = vec![];
    let mut lines: HashMap<String, (usize, usize)> = HashMap::new();
    let mut counts = vec![0; nt];
    let mut customs: Vec<Vec<u64>> = vec![vec![]; nt];
    for t in 0..nt {
        let mut p = vec![];
        for _ in 0..per {
            let tag = format!("{}{:04};", (b'A' + t as u8) as char, counts[t]);
            let m = *c.rng.pick(&[0, 3, 20, 300]);
            let mut l = if m == 0 { ML::default() } else { gline(&mut c.rng, m, TextCfg { nl: false, ..TextCfg::RICH }, true) };
            l.v.insert(0, Seg { t: tag, a: gattr(&mut c.rng) });
            let text = shown(&l);
            match c.rng.below(12) {
                0..=3 => p.push(TOp::Print(l)),
                4 | 5 => p.push(TOp::Wrap(l)),
                6 => p.push(TOp::GlobalPrint(l)),
                7 => p.push(TOp::Suspend(vec![SAct::Out(format!("{}\n", text))])),
                8 => {
                    let n = (t as u64) << 32 | customs[t].len() as u64;
                    customs[t].push(n);
                    p.push(if c.rng.chance(1, 2) { TOp::Custom(n) } else { TOp::CustomBox(n) });
                    continue;
                }
                9 => {
                    p.push(c.rng.pick(&[TOp::Bell, TOp::Echo(l.clone()), TOp::Status(Some(l.clone())), TOp::Prompt(l.clone(), true, true), TOp::Notice(l.clone(), 0)]).clone());
                    continue;
                }
                _ => {
                    p.push(c.rng.pick(&[TOp::Yield, TOp::SleepUs(50), TOp::Spin(300)]).clone());
                    continue;
                }
            }
            lines.insert(text, (t, counts[t]));
            counts[t] += 1;
        }
        progs.push(p);
    }
    s.call(Cmd::Spawn(progs, true))?;
    let mut want_in = vec![];
    for _ in 0..*c.rng.pick(&[0, 10, 80]) {
        let mut l = gin(&mut c.rng, tty_in);
        if l.last() == Some(&b'\r') {
            l.push(b'.');
        }
        let mut b = l.clone();
        b.push(b'\n');
        want_in.push(l);
        for k in b.chunks(c.rng.range(1, 3000)) {
            s.write_in(k)?;
        }
        if tty_in {
            s.sync()?;
        }
    }
    let eof = c.rng.chance(1, 2);
    if eof {
        s.sync()?;
        if tty_in {
            s.write_in(&[4])?;
        } else {
            s.in_w = None;
        }
    }
    let j = s.call(Cmd::Join)?;
    for t in &j.threads {
        ensure!(t.panic.is_none(), "a call panicked: {:?}", t.panic);
    }
    s.sync()?;
    let n = want_in.len() + eof as usize + customs.iter().map(|c| c.len()).sum::<usize>();
    let got = drain_n(&mut s, n)?;
    let mut gi = vec![];
    let mut gc: Vec<Vec<u64>> = vec![vec![]; nt];
    let mut fin = 0;
    for (g, _) in &got {
        match g {
            Resp::Input(t) => {
                ensure!(fin == 0, "input after the end of input");
                gi.push(t.clone())
            }
            Resp::Finish => fin += 1,
            Resp::Custom(n) => {
                let t = (*n >> 32) as usize;
                ensure!(t < nt, "unknown custom value {}", n);
                gc[t].push(*n)
            }
            x => bail!("unexpected response {:?}", x),
        }
    }
    ensure!(fin == eof as usize, "told {} times that input is finished", fin);
    ensure!(gi.len() == want_in.len(), "{} lines delivered instead of {}", gi.len(), want_in.len());
    for (g, w) in gi.iter().zip(&want_in) {
        ensure!(line_ok(w, g), "input line {} delivered as {}", show(w), show(g.as_bytes()));
    }
    ensure!(gc == customs, "custom values {:?} instead of {:?}", gc, customs);
    s.call(Cmd::Drop)?;
    s.sync()?;
    let out = String::from_utf8_lossy(&s.raw).to_string();
    ensure!(out.is_empty() || out.ends_with('\n'), "output ends within a line");
    let mut next = vec![0; nt];
    let mut total = 0;
    let mut prev = nt;
    for l in out.split_terminator('\n') {
        let Some((t, i)) = lines.get(l) else { bail!("output line {} was never printed", show(l.as_bytes())) };
        ensure!(next[*t] == *i, "line {} of thread {} came when line {} was due", i, t, next[*t]);
        next[*t] += 1;
        total += 1;
        if prev != *t {
            c.count("thread_switches", 1);
            prev = *t;
        }
    }
    ensure!(next == counts, "lines per thread: {:?} instead of {:?}", next, counts);
    c.count("lines_printed", total);
    c.count("lines_in", gi.len() as u64);
    c.sig(&out);
    Ok(())
}

/// Shutting down in the middle of things.
fn s_stop(c: &mut Ctx) -> R<()> {
    let (o, name) = conf(&mut c.rng);
    let tty_in = !o.stdin_pipe;
    c.count(&format!("sessions_{}", name), 1);
    let mut s = Sess::start(o)?;
    let mut exp = vec![];
    for round in 0..4 {
        s.call(Cmd::New)?;
        if c.rng.chance(1, 2) {
            s.sync()?;
        }
        let n = c.rng.below(20);
        for i in 0..n {
            s.call(Cmd::Print(Via::Io, ML::plain(format!("{} {}", round, i))))?;
            exp.extend(format!("{} {}\n", round, i).as_bytes());
            if c.rng.chance(1, 6) && s.in_w.is_some() | tty_in {
                s.write_in(b"some input\n")?;
            }
        }
        if c.rng.chance(1, 4) && !tty_in {
            s.in_w = None;
        }
        if c.rng.chance(1, 3) {
            s.sync()?;
        }
        let t = Instant::now();
        s.call(c.rng.pick(&[Cmd::Drop, Cmd::BlockingDie, Cmd::DieAsync]).clone())?;
        if t.elapsed() > Duration::from_secs(5) {
            return Err(Fail::Soft("shutting down took more than 5 s".into()));
        }
        c.count("shutdowns", 1);
        s.call(Cmd::StdoutWrite("x\n".into()))?;
        exp.extend(b"x\n");
        same_out(&mut s, &exp)?;
        c.sig(&format!("{} {}", name, n));
    }
    Ok(())
}

/// Values of TERM that are neither `dumb` nor `pipe`, on a terminal.
pub fn s_terms(c: &mut Ctx) -> R<()> {
    let t = *c.rng.pick(&[
        crate::sess::UNSET, "", "dumber", "dumb-emacs-ansi", "Dumb", "DUMB", "Pipe", "pipes", "xdumb", "unknown", "xterm-256color", "linux", " dumb", "dumb ", "vt100", "tty", "network", "cons25", "emacs", "screen.pipe",
    ]);
    let mut o = Opts::new(40, 12);
    o.term = t.into();
    let mut d = Drv::start(super::life::signals(&mut c.rng, o))?;
    ensure!(d.s.termios() != d.s.termios0, "no raw mode with TERM {:?}", t);
    d.cmd(Cmd::Prompt(ML::plain("$ "), true, false))?;
    for _ in 0..4 {
        let l = gline(&mut c.rng, 12, TextCfg::SIMPLE, true);
        c.sig(&format!("{} {:?}", t, l));
        d.cmd(match c.rng.below(4) {
            0 => Cmd::Wrap(Via::Io, l),
            1 => Cmd::Status(Some(l)),
            2 => Cmd::Echo(l),
            _ => Cmd::Print(Via::Io, l),
        })?;
        d.keys(&[Key::Ch('a'), Key::Ch('b'), Key::Left])?;
        d.check()?;
    }
    Ok(())
}

pub fn c12() -> Check {
    Check {
        id: "C12",
        level: "exploration",
        rule: "random sequences of output calls, input lines (any bytes, any chunking, end of input anywhere) in the four tty/pipe configurations; after every step the output bytes, the responses and the terminal settings are compared with those specified; with several printing threads the output is parsed back and checked for exact text, per-thread order and completeness. Distinct: by the calls and lines a case consists of",
        assumptions: vec!["the kernel's pipes and terminal line discipline"],
        scens: vec![
            scen("walk", 2500, s_walk),
            scen("threads", 600, s_threads).racy(),
            scen("stop", 400, s_stop).racy(),
            scen("terms", 60, s_terms),
        ],
    }
}

// ------------------------------------------------------------------- C15

fn c15_opts(r: &mut Rng) -> Opts {
    if r.chance(1, 3) {
        conf(r).0
    } else {
        Opts::new(40, 12)
    }
}
fn gmode(r: &mut Rng, blocking: bool) -> ReadMode {
    let us = *r.pick(&[0, 1, 50, 300, 990, 1000, 1980, 2950, 4000]);
    match r.below(if blocking { 10 } else { 5 }) {
        0 => ReadMode::Try,
        1 => ReadMode::Timeout(us),
        2 => ReadMode::Deadline(us),
        3 => ReadMode::PastDeadline,
        4 => ReadMode::AsyncTimeout(us),
        5 => ReadMode::Blocking,
        6 => ReadMode::Async,
        7 => ReadMode::OldBlocking,
        9 => {
            // for a very long time
            let us = *r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, 1 << 52]);
            if r.chance(1, 2) {
                ReadMode::Timeout(us)
            } else {
                ReadMode::Deadline(us)
            }
        }
        _ => ReadMode::OldAsync,
    }
}
/// Times of a sequence of reads.
fn check_times(modes: &[ReadMode], lines: &[String], avail: usize) -> R<()> {
    check_times_warped(modes, lines, avail, 1)
}
fn check_times_warped(modes: &[ReadMode], lines: &[String], avail: usize, warp: u64) -> R<()> {
    let mut got = 0;
    let slack = 3_000_000 * warp;
    for (m, l) in modes.iter().zip(lines) {
        let v: Vec<&str> = l.split(' ').collect();
        let us: u64 = v[1].parse().unwrap();
        let some = v[2] == "true";
        if got < avail {
            ensure!(some, "{:?} returned nothing although a response was there", m);
            if us > slack {
                return Err(Fail::Soft(format!("{:?} took {} us although a response was there", m, us)));
            }
        }
        if !some {
            let min = match m {
                ReadMode::Timeout(x) | ReadMode::Deadline(x) | ReadMode::AsyncTimeout(x) => *x,
                _ => 0,
            };
            ensure!(us >= min, "{:?} gave up after {} us", m, us);
            if us > min.saturating_add(slack) {
                return Err(Fail::Soft(format!("{:?} gave up only after {} us", m, us)));
            }
        }
        got += some as usize;
    }
    Ok(())
}

/// Responses that are available, read in all manners.
fn s_avail(c: &mut Ctx) -> R<()> {
    let o = c15_opts(&mut c.rng);
    let tty_mode = !o.stdin_pipe && !o.stdout_pipe && o.term == "xterm";
    let tty_in = !o.stdin_pipe;
    c.count(if tty_mode { "tty_sessions" } else { "pipe_sessions" }, 1);
    let mut s = Sess::start(o)?;
    s.call(Cmd::New)?;
    s.call(Cmd::SetClone)?;
    s.sync()?;
    let mut n = 0;
    let mut queue: Vec<Want> = vec![];
    for _ in 0..8 {
        for _ in 0..c.rng.below(12) {
            n += 1;
            match c.rng.below(4) {
                0 => {
                    s.sync()?;
                    let t = format!("line{}", n);
                    s.write_in(t.as_bytes())?;
                    s.write_in(if tty_mode { b"\r" } else { b"\n" })?;
                    queue.push(Want::Line(t.into()));
                    s.sync()?;
                }
                1 => {
                    s.call(Cmd::CustomBox(n))?;
                    queue.push(Want::Custom(n));
                }
                _ => {
                    s.call(Cmd::Custom(n))?;
                    queue.push(Want::Custom(n));
                }
            }
            if c.rng.chance(1, 3) {
                s.call(Cmd::Print(Via::Io, ML::plain("x")))?;
            }
        }
        s.sync()?;
        let avail = queue.len();
        // more reads than there are responses, or fewer
        let k = if c.rng.chance(1, 3) { c.rng.below(avail + 1) } else { avail };
        let mut modes: Vec<ReadMode> = (0..k).map(|_| gmode(&mut c.rng, true)).collect();
        if k == avail {
            for _ in 0..c.rng.below(4) {
                modes.push(gmode(&mut c.rng, false));
            }
        }
        c.sig(&format!("{:?}", modes));
        c.count("reads", modes.len() as u64);
        let r = s.call(Cmd::ReadSeq(modes.clone()))?;
        check_times(&modes, &r.lines, k)?;
        let rest = queue.split_off(k);
        let want = std::mem::replace(&mut queue, rest);
        want_ok(&r.resps, &want)?;
        c.count("responses", r.resps.len() as u64);
    }
    let _ = tty_in;
    s.call(Cmd::Drop)?;
    Ok(())
}

/// Threads sending while the reader reads.
fn s_race(c: &mut Ctx) -> R<()> {
    let o = c15_opts(&mut c.rng);
    let tty_mode = !o.stdin_pipe && !o.stdout_pipe && o.term == "xterm";
    c.count(if tty_mode { "tty_sessions" } else { "pipe_sessions" }, 1);
    let mut s = Sess::start(o)?;
    s.call(Cmd::New)?;
    s.sync()?;
    let nt = c.rng.range(1, 8);
    let per = *c.rng.pick(&[5, 40, 200]);
    let slow = *c.rng.pick(&[0, 3, 20]);
    let mut progs = vec![];
    let mut want: Vec<Vec<u64>> = vec![vec![]; nt];
    let mut prints = 0;
    for t in 0..nt {
        let mut p = vec![];
        for i in 0..per {
            let n = (t as u64) << 32 | i as u64;
            want[t].push(n);
            p.push(if c.rng.chance(1, 3) { TOp::CustomBox(n) } else { TOp::Custom(n) });
            match c.rng.below(20) {
                0 if slow > 0 => p.push(TOp::SleepUs(c.rng.below(100 * slow) as u64)),
                1 => p.push(TOp::Yield),
                2 => {
                    p.push(TOp::Print(ML::plain(format!("{} {}", t, i))));
                    prints += 1;
                }
                3 => p.push(TOp::Spin(c.rng.below(2000) as u32)),
                _ => {}
            }
        }
        progs.push(p);
    }
    let total = nt * per;
    let lines = c.rng.below(20);
    s.call(Cmd::Spawn(progs, c.rng.chance(1, 2)))?;
    let mut typed = vec![];
    let mut got = vec![];
    let mut sent = 0;
    let mut idle = 0;
    while got.len() < total + lines {
        if sent < lines {
            let t = format!("in{}", sent);
            s.write_in(t.as_bytes())?;
            s.write_in(if tty_mode { b"\r" } else { b"\n" })?;
            typed.push(t);
            sent += 1;
        }
        let left = total + sent - got.len();
        // blocking reads only while something must still come
        let k = c.rng.range(1, 40);
        let mut sure = left;
        let modes: Vec<ReadMode> = (0..k)
            .map(|_| {
                let m = gmode(&mut c.rng, sure > 0);
                sure = sure.saturating_sub(1);
                m
            })
            .collect();
        c.count("reads", modes.len() as u64);
        let r = s.call(Cmd::ReadSeq(modes.clone()))?;
        check_times(&modes, &r.lines, 0)?;
        idle = if r.resps.is_empty() { idle + 1 } else { 0 };
        got.extend(r.resps);
        if idle > 5 {
            // (nothing may be left to come)
            s.sync()?;
            let d = s.drain()?;
            if d.is_empty() && sent == lines {
                break;
            }
            got.extend(d);
        }
    }
    let j = s.call(Cmd::Join)?;
    for t in &j.threads {
        ensure!(t.panic.is_none(), "a call panicked: {:?}", t.panic);
    }
    s.sync()?;
    got.extend(s.drain()?);
    let mut gc: Vec<Vec<u64>> = vec![vec![]; nt];
    let mut gi = vec![];
    for (g, _) in &got {
        match g {
            Resp::Custom(n) => {
                let t = (*n >> 32) as usize;
                ensure!(t < nt, "unknown custom value {}", n);
                gc[t].push(*n)
            }
            Resp::Input(t) => gi.push(t.clone()),
            x => bail!("unexpected response {:?}", x),
        }
    }
    for t in 0..nt {
        ensure!(
            gc[t] == want[t],
            "thread {}: {} values arrived of {}; first difference at {}",
            t,
            gc[t].len(),
            want[t].len(),
            gc[t].iter().zip(&want[t]).take_while(|(a, b)| a == b).count()
        );
    }
    ensure!(gi == typed, "input lines {:?} instead of {:?}", gi, typed);
    c.count("responses", got.len() as u64);
    c.count("printed_meanwhile", prints);
    c.sig(&format!("{:?}", got.iter().map(|g| format!("{:?}", g.0)).collect::<Vec<_>>()));
    Ok(())
}

/// Waiting for minutes, hours and days (which pass quickly for the subject).
fn s_hours(c: &mut Ctx) -> R<()> {
    let k = *c.rng.pick(&[100u64, 2000, 30000, 100_000, 1_000_000]);
    let mut o = c15_opts(&mut c.rng);
    (o.chaos, o.warp) = (None, k as u32);
    let mut s = Sess::start(o)?;
    s.call(Cmd::New)?;
    s.sync()?;
    let mut n = 0;
    for _ in 0..5 {
        // (in the subject's time)
        let us = c.rng.range(1, 300_000) as u64 * k;
        let mode = match c.rng.below(3) {
            0 => ReadMode::Timeout(us),
            1 => ReadMode::Deadline(us),
            _ => ReadMode::AsyncTimeout(us),
        };
        c.count("subject_minutes", us / 60_000_000);
        c.count("reads", 1);
        let comes = c.rng.chance(1, 2);
        c.sig(&format!("{:?} {}", mode, comes));
        if comes {
            // a value comes while it is being waited for, long before or not
            // long before the time is up
            n += 1;
            let after = us / 100 * c.rng.range(0, 60) as u64;
            s.call(Cmd::Spawn(vec![vec![TOp::SleepUs(after), TOp::Custom(n)]], false))?;
            let r = s.call(Cmd::ReadSeq(vec![mode.clone()]))?;
            check_times_warped(&[mode.clone()], &r.lines, 0, k)?;
            let mut got = r.resps;
            if got.is_empty() {
                // (only if that thread was late)
                c.count("late", 1);
                s.call(Cmd::Join)?;
                s.sync()?;
                got = s.drain()?;
            } else {
                c.count("in_time", 1);
                let us: u64 = r.lines[0].split(' ').nth(1).unwrap().parse().unwrap();
                if us > after + 3_000_000 * k {
                    return Err(Fail::Soft(format!("{:?} took {} us although the value was there after {}", mode, us, after)));
                }
                s.call(Cmd::Join)?;
            }
            want_ok(&got, &[Want::Custom(n)])?;
        } else {
            let r = s.call(Cmd::ReadSeq(vec![mode.clone()]))?;
            check_times_warped(&[mode], &r.lines, 0, k)?;
            ensure!(r.resps.is_empty(), "a response from nowhere: {:?}", r.resps);
        }
    }
    s.call(Cmd::Drop)?;
    Ok(())
}

/// Values that arrived are still there when the terminal goes away.
fn s_gone(c: &mut Ctx) -> R<()> {
    let mut s = Sess::start(super::life::perturb(&mut c.rng, Opts::new(40, 12)))?;
    s.call(Cmd::InstallHup)?;
    s.call(Cmd::New)?;
    s.sync()?;
    let mut want = vec![];
    for n in 0..c.rng.range(1, 30) as u64 {
        s.call(if c.rng.chance(1, 2) { Cmd::Custom(n) } else { Cmd::CustomBox(n) })?;
        want.push(Want::Custom(n));
    }
    if c.rng.chance(1, 2) {
        s.sync()?;
        s.type_bytes(b"abc\r")?;
        want.push(Want::Line(b"abc".to_vec()));
    }
    s.sync()?;
    s.hangup();
    std::thread::sleep(Duration::from_millis(c.rng.below(10) as u64));
    let modes: Vec<ReadMode> = (0..want.len()).map(|_| gmode(&mut c.rng, true)).collect();
    c.sig(&format!("{:?}", modes));
    c.count("reads", modes.len() as u64 + 1);
    let r = s.call(Cmd::ReadSeq(modes.clone()))?;
    check_times(&modes, &r.lines, modes.len())?;
    want_ok(&r.resps, &want)?;
    let r = s.call(Cmd::Read(ReadMode::Blocking))?;
    ensure!(r.resps.len() == 1 && r.resps[0].0 == Resp::Dead, "after the terminal is gone: {:?}", r.resps);
    c.count("responses", want.len() as u64 + 1);
    Ok(())
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        level: "exploration",
        rule: "custom values (whose integrity is checked on arrival) and input lines from up to 8 threads, read by random mixtures of all ways of reading with random timeouts; the responses must be, per sender, exactly those sent, in order; a read that returns nothing must have taken its time, one for which a response was there must return it. Distinct: by the ways of reading used or the order in which the responses arrived",
        assumptions: vec!["the tokio channel's own correctness is part of what is observed, not assumed"],
        scens: vec![
            scen("avail", 1200, s_avail),
            scen("race", 800, s_race).racy(),
            scen("gone", 200, s_gone).racy(),
            scen("hours", 60, s_hours).racy(),
        ],
    }
}
