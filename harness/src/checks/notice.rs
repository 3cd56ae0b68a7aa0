//! C10 (notices) and C11 (prompt settings).
use super::*;

const HOUR: u64 = 3_600_000;

fn short(r: &mut Rng, tag: &str) -> ML {
    let n = r.range(1, 8);
    let mut l = gline(r, n, TextCfg { wide: true, zw: false, ctl: false, nl: false, ascii: false }, true);
    l.v.insert(0, Seg { t: tag.into(), a: gattr(r) });
    l
}

/// Output calls and keys around notices that do not expire.
fn s_walk(c: &mut Ctx) -> R<()> {
    let (w, h) = gsize(&mut c.rng);
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(w, h)))?;
    d.s.call(Cmd::SetClone)?;
    let cfg = UiCfg { styled: c.rng.chance(1, 2), rich: c.rng.chance(1, 2), notices: true, clear: true };
    for _ in 0..30 {
        match c.rng.below(4) {
            0 | 1 => {
                // a notice, perhaps several
                for _ in 0..c.rng.range(1, 3) {
                    for _ in 0..200 {
                        let x = next_cmd(&mut c.rng, &d.ui, cfg);
                        if let Cmd::Notice(l, _) = x {
                            let du = c.rng.pick(&[Dur::Ms(HOUR), Dur::Ms(u64::MAX), Dur::Max, Dur::Ms(200_000)]).clone();
                            c.sig(&format!("{:?}", l));
                            c.count("notices", 1);
                            d.cmd(Cmd::Notice(l, du))?;
                            break;
                        }
                    }
                }
            }
            2 => {
                for _ in 0..c.rng.range(1, 3) {
                    let x = next_cmd(&mut c.rng, &d.ui, cfg);
                    d.cmd(x)?;
                }
            }
            _ => {
                let ks = if c.rng.chance(1, 2) {
                    // keys that change nothing still dismiss
                    let k = *c.rng.pick(&[
                        Key::Left, Key::Right, Key::Home, Key::End, Key::Up, Key::Down, Key::Del, Key::Ctl(8), Key::Ctl(11),
                        Key::Ctl(21), Key::Ctl(23), Key::Ctl(25), Key::Ctl(9), Key::Ctl(1), Key::Ctl(5), Key::Ctl(14), Key::Ctl(16),
                        Key::Ctl(20), Key::Ctl(7), Key::Ctl(3), Key::Ctl(4), Key::Ctl(28), Key::Ctl(0),
                    ]);
                    c.count("dismissing_keys", d.ui.notice.is_some() as u64);
                    vec![k]
                } else {
                    let n = c.rng.range(1, 4);
                    next_keys(&mut c.rng, &d.ui, cfg, n)
                };
                c.sig(&format!("{:?} {}", ks, d.ui.notice.is_some()));
                d.keys(&ks)?;
            }
        }
        d.check()?;
    }
    d.check_resps()?;
    Ok(())
}

/// Wait for the notice on the screen to go away; not before `from + d`, and
/// not long after.
fn wait_gone(d: &mut Drv, from: Instant, dur: Duration) -> R<Duration> {
    let with = d.ui.clone();
    let mut without = d.ui.clone();
    without.notice = None;
    let mut last_err;
    loop {
        d.s.sync()?;
        let now = Instant::now();
        let w = d.s.compare(&with);
        let o = d.s.compare(&without);
        if o.is_ok() {
            ensure!(now >= from + dur, "a notice for {:?} was gone after {:?}", dur, now - from);
            d.ui.notice = None;
            return Ok(now - from);
        }
        last_err = match (w, o) {
            (Ok(()), _) => "it is still shown".to_string(),
            (Err(a), Err(b)) => format!("the screen shows neither what it should with the notice:\n{}\nnor without:\n{}", a, b),
            _ => unreachable!(),
        };
        if now > from + dur + Duration::from_millis(2500) {
            return Err(Fail::Soft(format!("{:?} after a notice for {:?}: {}", now - from, dur, last_err)));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// Notices that expire by themselves.
fn s_expiry(c: &mut Ctx) -> R<()> {
    let (w, h) = (40, 24);
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(w, h)))?;
    let mut prev: Option<ML> = None;
    for round in 0..4 {
        // (a notice goes all the same while there can be no input)
        let allow = c.rng.chance(2, 3);
        let p = short(&mut c.rng, "P");
        d.s.sync()?;
        d.cmd(Cmd::Prompt(p, allow, false))?;
        c.count("rounds_without_input", !allow as u64);
        let n = *c.rng.pick(&[1, 1, 2, 3]);
        let mut from = Instant::now();
        let mut dur = Duration::ZERO;
        for i in 0..n {
            let ms = if i + 1 == n { *c.rng.pick(&[0, 1, 20, 80, 150, 300]) } else { *c.rng.pick(&[0, 5, 40, 100, 200, HOUR, u64::MAX]) };
            // (the same text again is a notice of its own)
            let l = match &prev {
                Some(l) if c.rng.chance(1, 3) => l.clone(),
                _ => short(&mut c.rng, &format!("N{}", i)),
            };
            prev = Some(l.clone());
            from = Instant::now();
            dur = Duration::from_millis(ms);
            // an older notice may have expired by now, but not this one
            d.cmd(Cmd::Notice(l, Dur::Ms(ms)))?;
            if c.rng.chance(1, 3) {
                std::thread::sleep(Duration::from_millis(c.rng.range(1, 60) as u64));
            }
            c.count("notices", 1);
        }
        // other activity does not matter to the notice
        for _ in 0..c.rng.below(4) {
            match c.rng.below(4) {
                0 => {
                    let l = short(&mut c.rng, "row");
                    d.cmd(Cmd::Print(Via::Io, l))?;
                }
                1 => {
                    let l = short(&mut c.rng, "S");
                    d.cmd(Cmd::Status(Some(l)))?;
                }
                2 => {
                    let l = short(&mut c.rng, "p");
                    d.cmd(Cmd::Prompt(l, allow, false))?;
                }
                _ if !allow && c.rng.chance(1, 2) => d.keys(&[Key::Ch('q'), Key::Left])?,
                _ => d.cmd(Cmd::RemoveStatus)?,
            }
            std::thread::sleep(Duration::from_millis(c.rng.range(0, 15) as u64));
        }
        let early = from.elapsed() < dur;
        let took = wait_gone(&mut d, from, dur)?;
        c.count("expired", 1);
        c.count("waited_ms", took.as_millis() as u64);
        c.sig(&format!("{} {} {:?} {}", round, n, dur, early));
        // input goes on as before
        let ks: Vec<Key> = "xy".chars().map(Key::Ch).collect();
        d.keys(&ks)?;
        d.check()?;
        // dismissed, then another one, while the dismissed one's time runs out
        if allow && c.rng.chance(1, 2) {
            let l = short(&mut c.rng, "D");
            d.cmd(Cmd::Notice(l, Dur::Ms(c.rng.range(30, 90) as u64)))?;
            d.keys(&[Key::Ch('z')])?;
            d.s.sync()?;
            let l = short(&mut c.rng, "E");
            let from = Instant::now();
            let ms = c.rng.range(100, 220) as u64;
            d.cmd(Cmd::Notice(l, Dur::Ms(ms)))?;
            wait_gone(&mut d, from, Duration::from_millis(ms))?;
            c.count("expired", 1);
        }
    }
    Ok(())
}
/// Notices for minutes and hours (which pass quickly for the subject).
fn s_hours(c: &mut Ctx) -> R<()> {
    let k = *c.rng.pick(&[60u32, 500, 4000, 30000, 100_000]);
    let mut d = Drv::start(Opts { warp: k, ..Opts::new(40, 24) })?;
    for round in 0..3 {
        let allow = c.rng.chance(2, 3);
        d.s.sync()?;
        d.cmd(Cmd::Prompt(ML::plain("> "), allow, false))?;
        let n = *c.rng.pick(&[1, 1, 2, 3, 8]);
        let mut from = Instant::now();
        let mut dur = Duration::ZERO;
        for i in 0..n {
            // (in the subject's time)
            let ms = c.rng.range(1, if i + 1 == n { 500 } else { 1500 }) as u64 * k as u64;
            let l = short(&mut c.rng, &format!("N{}", i));
            from = Instant::now();
            dur = Duration::from_micros(ms * 1000 / k as u64);
            d.cmd(Cmd::Notice(l, Dur::Ms(ms)))?;
            c.count("notices", 1);
            c.count("subject_minutes", ms / 60_000);
            if c.rng.chance(1, 4) && i + 1 < n {
                std::thread::sleep(Duration::from_millis(c.rng.range(1, 60) as u64));
            }
        }
        let took = wait_gone(&mut d, from, dur)?;
        c.count("expired", 1);
        c.sig(&format!("{} {} {:?} {:?}", round, k, dur, took.as_millis() / 10));
        d.keys(&[Key::Ch('x'), Key::Left])?;
        d.check()?;
    }
    Ok(())
}
/// Many notices at a time, from behind a busy output thread; the time of a
/// notice running out while it is busy.
fn s_burst(c: &mut Ctx) -> R<()> {
    let mut d = Drv::start(super::life::perturb(&mut c.rng, Opts::new(40, 24)))?;
    for round in 0..3 {
        d.s.sync()?;
        d.cmd(Cmd::Prompt(ML::plain("> "), c.rng.chance(2, 3), false))?;
        d.s.call(Cmd::Suspend(vec![SAct::Gate(round)]))?;
        d.ui.note_engaged();
        let n = c.rng.range(1, 40);
        let mut dur = Duration::ZERO;
        let mut l = short(&mut c.rng, "N");
        for i in 0..n {
            if c.rng.chance(1, 2) {
                l = short(&mut c.rng, &format!("N{}", i));
            }
            let ms = if i + 1 == n { *c.rng.pick(&[0, 10, 60, 150]) } else { *c.rng.pick(&[0, 0, 1, 5, 30, HOUR, u64::MAX]) };
            dur = Duration::from_millis(ms);
            d.cmd(Cmd::Notice(l.clone(), Dur::Ms(ms)))?;
        }
        c.count("notices", n as u64);
        let from = Instant::now();
        d.s.call(Cmd::OpenGate(round))?;
        if c.rng.chance(1, 3) {
            // busy again while it should go
            d.s.call(Cmd::Suspend(vec![SAct::Gate(100 + round)]))?;
            std::thread::sleep(dur + Duration::from_millis(c.rng.below(40) as u64));
            d.s.call(Cmd::OpenGate(100 + round))?;
        }
        wait_gone(&mut d, from, dur)?;
        c.count("expired", 1);
        c.sig(&format!("{} {:?}", n, dur));
        d.keys(&[Key::Ch('x')])?;
        d.check()?;
    }
    Ok(())
}
/// A notice for a long time stays although others before it were short.
fn s_stays(c: &mut Ctx) -> R<()> {
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(40, 24)))?;
    let mut l = short(&mut c.rng, "n");
    for _ in 0..c.rng.range(1, 12) {
        if c.rng.chance(1, 2) {
            l = short(&mut c.rng, "n");
        }
        let ms = c.rng.range(0, 120) as u64;
        d.model_cmd(&Cmd::Notice(l.clone(), Dur::Ms(ms)));
        d.ui.note_engaged();
        d.s.call(Cmd::Notice(l.clone(), Dur::Ms(ms)))?;
    }
    if c.rng.chance(1, 2) {
        l = short(&mut c.rng, "L");
    }
    d.cmd(Cmd::Notice(l, c.rng.pick(&[Dur::Ms(HOUR), Dur::Max]).clone()))?;
    let end = Instant::now() + Duration::from_millis(180);
    while Instant::now() < end {
        d.check()?;
        std::thread::sleep(Duration::from_millis(7));
    }
    d.keys(&[Key::Right])?;
    d.check()?;
    Ok(())
}

/// Notices, prompts, statuses and keys from all sides at once; afterwards
/// everything works.
fn storm(c: &mut Ctx, notices: bool) -> R<()> {
    let (w, h) = (40, 24);
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(w, h)))?;
    let n = c.rng.range(1, 5);
    let mut progs = vec![];
    for t in 0..n {
        let mut p = vec![];
        for _ in 0..c.rng.range(20, 150) {
            let l = short(&mut c.rng, &format!("T{}", t));
            p.push(match c.rng.weighted(&[if notices { 30 } else { 4 }, if notices { 4 } else { 30 }, 6, 4, 4]) {
                0 => TOp::Notice(l, *c.rng.pick(&[0, 0, 1, 2, 5, 30, 200, HOUR, u64::MAX])),
                1 => TOp::Prompt(l, c.rng.chance(1, 2), c.rng.chance(1, 3)),
                2 => TOp::Status(if c.rng.chance(1, 3) { None } else { Some(l) }),
                3 => TOp::SleepUs(c.rng.range(1, 3000) as u64),
                _ => TOp::Yield,
            });
        }
        c.count("calls_from_threads", p.len() as u64);
        progs.push(p);
    }
    c.sig(&format!("{:?}", progs));
    d.s.call(Cmd::Spawn(progs, c.rng.chance(1, 2)))?;
    for _ in 0..c.rng.below(15) {
        let kc = KeyCfg { ret: true, resp: true, hist: true, ..KeyCfg::EDIT };
        let k = c.rng.range(1, 8);
        let mut ks = gkeys(&mut c.rng, k, &kc);
        ks.retain(|k| !matches!(k, Key::Ctl(12)));
        d.s.keys(&ks)?;
        c.count("keys", ks.len() as u64);
        std::thread::sleep(Duration::from_micros(c.rng.below(2000) as u64));
    }
    let r = d.s.call(Cmd::Join)?;
    for t in &r.threads {
        ensure!(t.panic.is_none(), "a call panicked: {:?}", t.panic);
    }
    d.s.sync()?;
    d.s.drain()?;
    d.bells = d.s.vt.bells;
    // settle everything
    let (p, s) = (short(&mut c.rng, "P"), short(&mut c.rng, "S"));
    d.cmd(Cmd::Status(Some(s)))?;
    d.cmd(Cmd::Prompt(p, true, true))?;
    if notices && c.rng.chance(1, 2) {
        let l = short(&mut c.rng, "F");
        let from = Instant::now();
        let ms = *c.rng.pick(&[0, 10, 60]);
        d.cmd(Cmd::Notice(l, Dur::Ms(ms)))?;
        wait_gone(&mut d, from, Duration::from_millis(ms))?;
        c.count("expired", 1);
    } else {
        let l = short(&mut c.rng, "F");
        d.cmd(Cmd::Notice(l, Dur::Ms(HOUR)))?;
        d.check()?;
        d.keys(&[Key::Left])?;
    }
    d.check()?;
    for _ in 0..3 {
        let ks: Vec<Key> = gtext(&mut c.rng, 3, TextCfg::SIMPLE).chars().map(Key::Ch).collect();
        d.keys(&ks)?;
        d.keys(&[Key::Left, Key::Ctl(8)])?;
        let l = short(&mut c.rng, "out");
        d.s.sync()?;
        d.cmd(Cmd::Print(Via::Io, l))?;
        d.check()?;
    }
    d.keys(&[Key::Ctl(13)])?;
    d.check()?;
    d.check_resps()?;
    Ok(())
}
fn s_storm_n(c: &mut Ctx) -> R<()> {
    storm(c, true)
}
fn s_storm_p(c: &mut Ctx) -> R<()> {
    storm(c, false)
}

pub fn c10() -> Check {
    Check {
        id: "C10",
        level: "exploration",
        rule: "random notices, keys and output calls with the screen compared to the reference after every batch; expiring notices observed until they go, never before their time; storms of notices, prompts, statuses and keys from several threads followed by a full comparison; distinct by the calls made",
        assumptions: vec!["a notice still shown 2.5 s after its time is late (confirmed by repetition)"],
        scens: vec![
            scen("walk", 1200, s_walk),
            scen("expiry", 120, s_expiry).racy(),
            scen("hours", 60, s_hours).racy(),
            scen("stays", 150, s_stays).racy(),
            scen("burst", 200, s_burst).racy(),
            scen("storm", 250, s_storm_n).racy(),
        ],
    }
}

// ---------------------------------------------------------------- C11

fn prompt_walk(c: &mut Ctx, allow: (usize, usize), clear: (usize, usize)) -> R<()> {
    let (w, h) = *c.rng.pick(&[(40, 24), (25, 14), (16, 14)]);
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(w, h)))?;
    let texts: Vec<ML> = (0..3).map(|i| { let t = format!("{}>", i); short(&mut c.rng, &t) }).chain([ML::default()]).collect();
    // a history to browse, so that clearing while browsing is seen
    if c.rng.chance(1, 2) {
        let lines: Vec<String> = (0..3).map(|i| format!("h{}", i)).collect();
        d.s.call(Cmd::SwapHistory(HistSpec { lines: lines.clone(), limit: Some(100), strip: true, file: None, interval: None, failing_autosave: false }))?;
        d.s.sync()?;
        d.ui.ed.hist_replaced(lines);
    }
    let probe = |d: &mut Drv| -> R<()> {
        d.cmd(Cmd::SetCompletor(1, vec![]))?;
        d.s.sync()?;
        d.keys(&[Key::Ctl(9)])?;
        d.s.sync()?;
        d.check_calls()?;
        d.cmd(Cmd::RemoveCompletor)?;
        Ok(())
    };
    for _ in 0..c.rng.range(10, 30) {
        for _ in 0..*c.rng.pick(&[1, 1, 1, 2, 3]) {
            // keys typed before a request are subject to what was set before
            d.s.sync()?;
            let l = c.rng.pick(&texts).clone();
            let (a, cl) = (c.rng.chance(allow.0, allow.1), c.rng.chance(clear.0, clear.1));
            let x = if c.rng.chance(1, 6) { Cmd::RemovePrompt(a, cl) } else { Cmd::Prompt(l, a, cl) };
            let browsing = d.ui.ed.text().starts_with('h');
            c.sig(&format!("{:?} {} {} {}", x, d.ui.ed.allowed, d.ui.ed.text().is_empty(), browsing));
            d.cmd(x)?;
            c.count("prompt_requests", 1);
        }
        if c.rng.chance(1, 6) {
            let l = short(&mut c.rng, "row");
            d.cmd(Cmd::Print(Via::Io, l))?;
        }
        d.check()?;
        let kc = KeyCfg { ret: true, resp: true, hist: true, clear: true, ..KeyCfg::EDIT };
        let n = c.rng.below(8);
        let mut ks = vec![];
        let mut u = d.ui.clone();
        for _ in 0..n {
            let k = gkey(&mut c.rng, &kc);
            let mut t = u.clone();
            t.ed.key(k);
            if t.live().0.len() + 2 <= h {
                ks.push(k);
                u = t;
            }
        }
        if d.ui.ed.allowed {
            c.count("keys_allowed", ks.len() as u64);
        } else {
            c.count("keys_not_allowed", ks.len() as u64);
        }
        d.keys(&ks)?;
        d.check()?;
        if c.rng.chance(1, 3) {
            probe(&mut d)?;
        }
        if c.rng.chance(1, 3) {
            d.check_resps()?;
        }
    }
    d.check_resps()?;
    let p = texts[0].clone();
    d.s.sync()?;
    d.cmd(Cmd::Prompt(p, true, false))?;
    d.s.sync()?;
    probe(&mut d)?;
    d.keys(&[Key::Ch('k'), Key::Home, Key::Ch('j'), Key::Ctl(13)])?;
    d.check()?;
    d.check_resps()?;
    ensure!(d.s.vt.bells == d.bells, "{} bells rung instead of {}", d.s.vt.bells, d.bells);
    Ok(())
}
fn s_mix(c: &mut Ctx) -> R<()> {
    prompt_walk(c, (1, 2), (1, 3))
}
fn s_clear(c: &mut Ctx) -> R<()> {
    prompt_walk(c, (9, 10), (2, 3))
}
fn s_keep(c: &mut Ctx) -> R<()> {
    prompt_walk(c, (2, 3), (1, 10))
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        level: "exploration",
        rule: "random prompt requests (often repeating the text) and keys; screen, cursor visibility, responses, and line and cursor as seen by a completor compared with the reference; storms from several threads followed by a full comparison; distinct by request and state it meets",
        assumptions: vec![],
        scens: vec![
            scen("mix", 900, s_mix),
            scen("clear", 500, s_clear),
            scen("keep", 500, s_keep),
            scen("storm", 150, s_storm_p).racy(),
        ],
    }
}
