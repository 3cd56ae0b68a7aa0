//! C01 output from many threads, C03 styles.
use super::*;
use std::collections::HashMap;

/// A line some thread prints.
struct Sent {
    thread: usize,
    idx: usize,
    rows: Vec<LRow>,
    /// how many lines of each thread are known to have been printed before
    before: Vec<usize>,
    /// printed for certain before the instance was shut down
    sure: bool,
}
struct Plan {
    progs: Vec<Vec<TOp>>,
    lines: HashMap<String, Sent>,
    counts: Vec<usize>,
    sure: Vec<usize>,
    bells: usize,
    edges: u64,
}
struct PlanCfg {
    threads: usize,
    steps: usize,
    w: usize,
    rich: bool,
    /// threads also change the live area
    live: bool,
    /// gate opened by every thread when it has printed its sure lines
    done_gate: Option<u32>,
    extra: usize,
    delays: bool,
    /// prompts may keep input from being given
    block: bool,
}
fn rows_of(op: &TOp, w: usize) -> Vec<LRow> {
    match op {
        TOp::Print(l) | TOp::Echo(l) | TOp::GlobalPrint(l) => layout_printed(&l.chars(), l.last_attr(), w),
        TOp::Wrap(l) => {
            let mut x = l.to_line();
            x.wrap_to_width(w);
            layout_printed(&line_chars(&x), line_last(&x), w)
        }
        _ => vec![],
    }
}
/// Generates thread programs along one global order (so that waiting for
/// signals cannot deadlock) and what is known about the order of their lines.
fn plan(r: &mut Rng, g: &PlanCfg) -> Plan {
    let n = g.threads;
    let mut p = Plan {
        progs: vec![vec![]; n],
        lines: HashMap::new(),
        counts: vec![0; n],
        sure: vec![0; n],
        bells: 0,
        edges: 0,
    };
    let mut clock: Vec<Vec<usize>> = vec![vec![0; n]; n];
    let mut signals: Vec<(u32, usize, Vec<usize>)> = vec![];
    let mut next_sig = 100;
    let mut line = |p: &mut Plan, clock: &mut Vec<Vec<usize>>, r: &mut Rng, t: usize, sure: bool| {
        let i = p.counts[t];
        p.counts[t] += 1;
        if sure {
            p.sure[t] += 1;
        }
        let tag = format!("{}{:04};", (b'A' + t as u8) as char, i);
        let m = *r.pick(&[0, 3, 8, 20, 60]);
        let tc = if g.rich {
            TextCfg { ctl: r.chance(1, 6), nl: r.chance(1, 4), ..TextCfg::RICH }
        } else {
            TextCfg::SIMPLE
        };
        let kind = r.weighted(&[8, 3, 2, 3]);
        let tc = if kind == 1 { TextCfg { ctl: false, nl: false, ..tc } } else { tc };
        let mut l = if m == 0 { ML::default() } else { gline(r, m, tc, true) };
        // (text without spaces, so that the tag stays where it is)
        let a = if r.chance(1, 3) { gattr(r) } else { Attr::default() };
        l.v.insert(0, Seg { t: tag.clone(), a });
        let op = match kind {
            0 => TOp::Print(l),
            1 => TOp::Wrap(l),
            2 => TOp::Echo(l),
            _ => TOp::GlobalPrint(l),
        };
        p.lines.insert(
            tag,
            Sent { thread: t, idx: i, rows: rows_of(&op, g.w), before: clock[t].clone(), sure },
        );
        clock[t][t] = i + 1;
        p.progs[t].push(op);
    };
    for _ in 0..g.steps {
        let t = r.below(n);
        match r.weighted(&[40, 6, 6, if g.live { 14 } else { 0 }, if g.delays { 20 } else { 0 }]) {
            0 => {
                for _ in 0..*r.pick(&[1, 1, 1, 2, 5]) {
                    line(&mut p, &mut clock, r, t, true);
                }
            }
            1 => {
                p.progs[t].push(TOp::Signal(next_sig));
                signals.push((next_sig, t, clock[t].clone()));
                next_sig += 1;
            }
            2 => {
                if let Some((s, u, c)) = signals.last().cloned() {
                    if u != t {
                        p.progs[t].push(TOp::WaitSignal(s));
                        p.edges += 1;
                        for (a, b) in clock[t].iter_mut().zip(&c) {
                            *a = (*a).max(*b);
                        }
                    }
                }
            }
            3 => {
                let k = r.range(1, 9);
                let l = gline(r, k, TextCfg::SIMPLE, true);
                p.progs[t].push(match r.below(6) {
                    0 => TOp::Status(None),
                    1 | 2 => TOp::Status(Some(l)),
                    3 => TOp::Prompt(l, !g.block || r.chance(2, 3), false),
                    4 => TOp::Notice(l, *r.pick(&[0, 1, 5, 3_600_000])),
                    _ => {
                        p.bells += 1;
                        TOp::Bell
                    }
                });
            }
            _ => p.progs[t].push(match r.below(4) {
                0 => TOp::SleepUs(r.below(300) as u64),
                1 => TOp::Spin(r.below(3000) as u32),
                _ => TOp::Yield,
            }),
        }
    }
    for t in 0..n {
        if let Some(g) = g.done_gate {
            p.progs[t].push(TOp::Signal(g + t as u32));
        }
        for _ in 0..g.extra {
            line(&mut p, &mut clock, r, t, false);
            if r.chance(1, 4) {
                p.progs[t].push(TOp::SleepUs(r.below(200) as u64));
            }
        }
    }
    p
}
/// Find the lines of the plan on the screen from the given row on; returns the
/// rows they occupy. Whatever follows is left to the comparison of the screen.
fn find_lines(d: &Drv, p: &Plan, c: &mut Ctx) -> R<Vec<LRow>> {
    let vt = &d.s.vt;
    let mut seen = vec![0usize; p.counts.len()];
    let mut rows: Vec<LRow> = vec![];
    let mut r = d.s.base_rows;
    let mut order = vec![];
    let show = |a: usize| -> String {
        (a.saturating_sub(3)..(a + 4).min(vt.total_rows()))
            .map(|i| format!("\n{:4}|{}|", i, row_text(vt.row(i))))
            .collect()
    };
    while r < vt.total_rows() {
        let t = row_text(vt.row(r));
        let Some(tag) = t.get(..6) else { break };
        let b = tag.as_bytes();
        if !(b[5] == b';' && b[0].is_ascii_uppercase() && b[1..5].iter().all(|x| x.is_ascii_digit())) {
            break;
        }
        let Some(s) = p.lines.get(tag) else { bail!("a line that nobody printed: {}", show(r)) };
        let want = seen[s.thread];
        if s.idx != want {
            bail!(
                "line {} of thread {} is shown where its line {} should be: {}",
                s.idx,
                s.thread,
                want,
                show(r)
            );
        }
        for (u, n) in s.before.iter().enumerate() {
            ensure!(
                seen[u] >= *n,
                "line {} is shown before line {} of thread {} that was printed earlier: {}",
                tag,
                seen[u],
                u,
                show(r)
            );
        }
        for (k, er) in s.rows.iter().enumerate() {
            if r + k >= vt.total_rows() {
                bail!("line {} is incomplete: {}", tag, show(r));
            }
            if let Err(e) = cmp_row(vt.row(r + k), er) {
                bail!("line {} is altered in its row {}: {} {}", tag, k, e, show(r + k));
            }
        }
        seen[s.thread] += 1;
        order.push(s.thread as u8);
        r += s.rows.len();
        rows.extend(s.rows.iter().cloned());
    }
    for (t, n) in p.sure.iter().enumerate() {
        ensure!(
            seen[t] >= *n,
            "only {} of the {} lines that thread {} printed are shown, in this order: {:?}; next: {}",
            seen[t],
            n,
            t,
            String::from_utf8_lossy(&order.iter().map(|x| b'A' + x).collect::<Vec<_>>()),
            show(r)
        );
    }
    c.count("lines_found", order.len() as u64);
    let sw = order.windows(2).filter(|w| w[0] != w[1]).count();
    c.count("switches_between_threads", sw as u64);
    c.count("ordered_pairs_across_threads", p.edges);
    c.sig(&format!("{:?}", order));
    Ok(rows)
}
fn check_threads(d: &mut Drv, p: &Plan) -> R<()> {
    let r = d.s.call(Cmd::JoinFor(20000))?;
    if !r.flag {
        return Err(d.s.stuck("printing threads did not finish"));
    }
    for (t, r) in r.threads.iter().enumerate() {
        ensure!(r.panic.is_none(), "output panicked in thread {}: {:?}", t, r.panic);
        ensure!(r.done == p.progs[t].len(), "thread {} did {} of {} steps", t, r.done, p.progs[t].len());
    }
    Ok(())
}
/// Editing that leaves something on the line.
fn some_keys(r: &mut Rng, n: usize) -> Vec<Key> {
    (0..n)
        .map(|_| match r.below(8) {
            0 => Key::Left,
            1 => Key::Right,
            2 => *r.pick(&[Key::Home, Key::End]),
            3 => Key::Ctl(8),
            4 => Key::Ch(*r.pick(W2)),
            _ => Key::Ch(*r.pick(W1)),
        })
        .collect()
}
fn fin(d: &mut Drv, p: &Plan, c: &mut Ctx) -> R<()> {
    let blocked = p.progs.iter().flatten().any(|x| matches!(x, TOp::Prompt(_, false, _)));
    // whatever the threads did last: settle on known contents
    let s = gline(&mut c.rng, 10, TextCfg::SIMPLE, true);
    let pr = gline(&mut c.rng, 10, TextCfg::SIMPLE, true);
    d.cmd(Cmd::Status(if c.rng.chance(1, 4) { None } else { Some(s) }))?;
    // (what was typed meanwhile may have been ignored)
    if blocked {
        d.s.sync()?;
    }
    d.cmd(Cmd::Prompt(pr, true, blocked))?;
    d.s.sync()?;
    d.keys(&[Key::Ch('!')])?;
    d.s.sync()?;
    let rows = find_lines(d, p, c)?;
    d.ui.rows = rows;
    d.check()?;
    // (a notice or a key press may be what rang)
    ensure!(d.s.vt.bells == p.bells, "{} bells rung instead of {}", d.s.vt.bells, p.bells);
    Ok(())
}
fn s_threads(c: &mut Ctx) -> R<()> {
    let (w, h) = (*c.rng.pick(&[20, 27, 40, 80]), *c.rng.pick(&[10, 16, 24]));
    let mut d = Drv::start(super::life::perturb(&mut c.rng, Opts::new(w, h)))?;
    let rich = c.rng.chance(1, 2);
    let cfg = PlanCfg {
        threads: *c.rng.pick(&[1, 2, 2, 3, 4, 8]),
        steps: *c.rng.pick(&[20, 60, 150]),
        w,
        rich,
        live: c.rng.chance(3, 4),
        done_gate: None,
        extra: 0,
        delays: c.rng.chance(2, 3),
        block: c.rng.chance(1, 3),
    };
    let p = plan(&mut c.rng, &cfg);
    c.sample(|| format!("{} threads, {} lines, {:?}", cfg.threads, p.lines.len(), p.progs[0].iter().take(4).collect::<Vec<_>>()));
    let hold = c.rng.chance(1, 4);
    if hold {
        // everything piles up behind a busy output thread
        d.s.call(Cmd::Suspend(vec![SAct::Gate(1)]))?;
        c.count("held", 1);
    }
    d.s.call(Cmd::Spawn(p.progs.clone(), c.rng.chance(1, 2)))?;
    if hold {
        check_threads(&mut d, &p)?;
        d.s.call(Cmd::OpenGate(1))?;
        d.s.sync()?;
    }
    for _ in 0..c.rng.below(5) {
        let n = c.rng.range(1, 3);
        let ks = some_keys(&mut c.rng, n);
        d.keys(&ks)?;
        c.count("keys_typed_meanwhile", n as u64);
        std::thread::sleep(Duration::from_micros(c.rng.below(400) as u64));
    }
    if !hold {
        check_threads(&mut d, &p)?;
    }
    fin(&mut d, &p, c)
}
/// A terminal that is slow to take output.
fn s_slow(c: &mut Ctx) -> R<()> {
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(40, 12)))?;
    let cfg = PlanCfg { threads: 3, steps: 400, w: 40, rich: false, live: true, done_gate: None, extra: 0, delays: false, block: false };
    let p = plan(&mut c.rng, &cfg);
    d.s.send(&Cmd::Spawn(p.progs.clone(), false))?;
    std::thread::sleep(Duration::from_millis(c.rng.below(60) as u64));
    d.s.recv(Duration::from_secs(20))?;
    check_threads(&mut d, &p)?;
    fin(&mut d, &p, c)
}
/// Shut down, in every way, right after (or during) the prints.
fn s_shutdown(c: &mut Ctx) -> R<()> {
    let (w, h) = (*c.rng.pick(&[20, 40, 80]), *c.rng.pick(&[10, 24]));
    let mut d = Drv::start(super::life::perturb(&mut c.rng, Opts::new(w, h)))?;
    let n = *c.rng.pick(&[1, 2, 4]);
    let racing = c.rng.chance(1, 2);
    let cfg = PlanCfg {
        threads: n,
        steps: *c.rng.pick(&[3, 20, 80]),
        w,
        rich: c.rng.chance(1, 2),
        live: true,
        done_gate: Some(1000),
        extra: if racing { *c.rng.pick(&[1, 10, 100]) } else { 0 },
        delays: c.rng.chance(1, 2), block: false,
    };
    let p = plan(&mut c.rng, &cfg);
    if c.rng.chance(1, 2) {
        d.cmd(Cmd::Status(Some(ML::plain("status"))))?;
        d.cmd(Cmd::Prompt(ML::plain("> "), true, false))?;
        let ks = some_keys(&mut c.rng, 5);
        d.keys(&ks)?;
        d.s.sync()?;
    }
    let hold = c.rng.chance(1, 4);
    let mut progs = p.progs.clone();
    if hold {
        d.s.call(Cmd::Suspend(vec![SAct::Gate(1)]))?;
        progs.push(vec![TOp::SleepUs(c.rng.below(20000) as u64), TOp::WaitSignal(2), TOp::SleepUs(500), TOp::Signal(1)]);
    }
    d.s.call(Cmd::Spawn(progs, false))?;
    for t in 0..n {
        let r = d.s.call(Cmd::AwaitGate(1000 + t as u32, 20000))?;
        if !r.flag {
            return Err(Fail::Soft("printing thread did not get anywhere".into()));
        }
    }
    if hold {
        d.s.call(Cmd::OpenGate(2))?;
    }
    let how = c.rng.below(3);
    d.s.call(match how {
        0 => Cmd::Drop,
        1 => Cmd::BlockingDie,
        _ => Cmd::DieAsync,
    })?;
    c.count(["drops", "blocking_dies", "async_dies"][how], 1);
    // what the terminal got by now is all there will be
    let r = d.s.call(Cmd::JoinFor(20000))?;
    if !r.flag {
        return Err(d.s.stuck("printing threads did not finish"));
    }
    d.s.sync()?;
    let rows = find_lines(&d, &p, c)?;
    d.ui.rows = rows;
    d.s.stats.screens += 1;
    if let Err(e) = d.s.compare_opt(&d.ui, false) {
        bail!("after shutdown: {}", e);
    }
    let lost = r.threads.iter().filter(|x| x.panic.is_some()).count();
    c.count("threads_that_saw_the_shutdown", lost as u64);
    Ok(())
}
/// Very long lines and very many lines.
fn s_big(c: &mut Ctx) -> R<()> {
    let (w, h) = (80, 24);
    let mut d = Drv::start(super::life::perturb(&mut c.rng, Opts::new(w, h)))?;
    d.cmd(Cmd::Prompt(ML::plain("> "), true, false))?;
    d.keys(&[Key::Ch('i')])?;
    d.s.sync()?;
    if c.idx % 2 == 0 {
        for i in 0..4 {
            let n = c.rng.range(500, 20000);
            let t: String = (0..n).map(|k| (b'a' + ((k * 7 + i) % 26) as u8) as char).collect();
            let l = ML::plain(t);
            let x = if c.rng.chance(1, 3) { Cmd::Wrap(Via::Io, l) } else { Cmd::Print(Via::Io, l) };
            d.cmd(x)?;
        }
    } else {
        let mut prog = vec![];
        for i in 0..3000 {
            let l = ML::plain(format!("{} {}", i, "#".repeat(i % 90)));
            d.ui.print(&l);
            prog.push(TOp::Print(l));
        }
        d.s.call(Cmd::Spawn(vec![prog], false))?;
        let r = d.s.call(Cmd::JoinFor(20000))?;
        ensure!(r.flag, "did not finish printing");
    }
    c.count("rows", d.ui.rows.len() as u64);
    d.check()
}

/// Every character reaches the terminal, those without width included.
fn s_chars(c: &mut Ctx) -> R<()> {
    let (w, h) = (*c.rng.pick(&[7, 20, 40, 80]), 24);
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(w, h)))?;
    for _ in 0..8 {
        d.s.vt.log = Some(String::new());
        let mut want = String::new();
        for _ in 0..c.rng.range(1, 6) {
            let mut l = ML::default();
            for _ in 0..c.rng.range(1, 6) {
                let mut t = String::new();
                for _ in 0..c.rng.below(8) {
                    match c.rng.weighted(&[4, 3, 2, 1]) {
                        0 => t.push(gchar(&mut c.rng, TextCfg { wide: true, ..TextCfg::SIMPLE }, false)),
                        1 => t.push(*c.rng.pick(W0)),
                        2 => t.push('\n'),
                        _ => t.push_str(&"x".repeat(w)),
                    }
                }
                l.v.push(Seg { t, a: if c.rng.chance(1, 2) { gattr(&mut c.rng) } else { Attr::default() } });
            }
            want.extend(l.text().chars().filter(|x| *x != ' ' && *x != '\n'));
            c.sig(&l.text());
            c.count("characters", want.chars().count() as u64);
            c.count("without_width", l.text().chars().filter(|x| cwidth(*x) == 0).count() as u64);
            d.s.call(match c.rng.below(4) {
                0 => Cmd::Wrap(Via::Io, l),
                1 => Cmd::Echo(l),
                2 => Cmd::Print(Via::Global, l),
                _ => Cmd::Print(Via::Io, l),
            })?;
        }
        d.s.sync()?;
        let got = d.s.vt.log.take().unwrap();
        if got != want {
            let k = got.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
            bail!("character {} of those printed is {:?}, should be {:?}: {:?} for {:?}", k, got.chars().nth(k), want.chars().nth(k), got, want);
        }
    }
    Ok(())
}

/// Lines that are the same again and again, empty ones among them.
fn s_repeats(c: &mut Ctx) -> R<()> {
    let w = 40;
    let mut d = Drv::start(super::life::perturb(&mut c.rng, Opts::new(w, 12)))?;
    let n = c.rng.range(1, 4);
    let common = *c.rng.pick(&["", "", " ", "=", "same"]);
    let mut progs = vec![];
    let mut own: Vec<Vec<String>> = vec![];
    let mut commons = 0;
    for t in 0..n {
        let mut p = vec![];
        let mut v = vec![];
        let alone = (b'A' + t as u8) as char;
        let mut k = 1;
        for _ in 0..*c.rng.pick(&[6, 20, 60]) {
            let text = match c.rng.below(4) {
                0 => common.to_string(),
                1 => {
                    k = c.rng.range(1, 4);
                    alone.to_string().repeat(k)
                }
                _ => alone.to_string().repeat(k),
            };
            let l = if text.is_empty() && c.rng.chance(1, 2) { ML::default() } else { ML::plain(text.clone()) };
            if text == common {
                commons += 1;
            } else {
                v.push(text);
            }
            p.push(match c.rng.below(8) {
                0 => TOp::Wrap(l),
                1 => TOp::Echo(l),
                2 | 3 => TOp::GlobalPrint(l),
                _ => TOp::Print(l),
            });
            if c.rng.chance(1, 12) {
                p.push(TOp::SleepUs(c.rng.below(300) as u64));
            }
        }
        c.sig(&format!("{:?}", p));
        progs.push(p);
        own.push(v);
    }
    d.cmd(Cmd::Prompt(ML::plain("> "), true, false))?;
    let total = commons + own.iter().map(|x| x.len()).sum::<usize>();
    let hold = c.rng.chance(1, 3);
    if hold {
        d.s.call(Cmd::Suspend(vec![SAct::Gate(1)]))?;
    }
    d.s.call(Cmd::Spawn(progs, true))?;
    let r = d.s.call(Cmd::JoinFor(20000))?;
    ensure!(r.flag, "did not finish printing");
    if hold {
        d.s.call(Cmd::OpenGate(1))?;
    }
    d.s.sync()?;
    let mut at = vec![0; n];
    let mut seen = 0;
    let b = d.s.base_rows;
    for i in b..(b + total).min(d.s.vt.total_rows()) {
        let t = row_text(d.s.vt.row(i));
        let t = t.trim_end();
        if t == common.trim_end() {
            seen += 1;
            d.ui.print(&ML::plain(common));
            continue;
        }
        let k = t.bytes().next().map_or(99, |x| x.wrapping_sub(b'A') as usize);
        ensure!(k < n && own[k].get(at[k]).map_or(false, |x| x == t), "row {} is {:?}; thread lines shown so far {:?}, expected next {:?}", i - b, t, at, own.iter().zip(&at).map(|(v, a)| v.get(*a)).collect::<Vec<_>>());
        at[k] += 1;
        d.ui.print(&ML::plain(t));
    }
    ensure!(seen == commons, "{:?} is shown {} times instead of {}", common, seen, commons);
    c.count("lines_found", total as u64);
    d.check()
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        level: "exploration",
        rule: "programs for 1 to 8 threads printing tagged lines with signals between them, run with typing and live-area changes meanwhile; a case is distinct by the order in which the threads' lines were shown",
        assumptions: vec!["terminal behaviour as in the emulator"],
        scens: vec![
            scen("threads", 1800, s_threads).racy(),
            scen("slow", 60, s_slow).racy(),
            scen("shutdown", 1500, s_shutdown).racy(),
            scen("big", 40, s_big),
            scen("chars", 250, s_chars),
            scen("repeats", 200, s_repeats).racy(),
        ],
    }
}

// ------------------------------------------------------------------- C03

fn any_attr(r: &mut Rng) -> Attr {
    let col = |r: &mut Rng| match r.below(9) {
        8 => None,
        x => Some(x as u8),
    };
    Attr { s: r.below(32) as u8, fg: col(r), bg: col(r) }
}
/// An attribute that differs from another in little.
fn near(r: &mut Rng, a: Attr) -> Attr {
    let mut b = a;
    match r.below(5) {
        0 => b.s ^= 1 << r.below(5),
        1 => b.fg = any_attr(r).fg,
        2 => b.bg = any_attr(r).bg,
        3 => return Attr::default(),
        _ => return any_attr(r),
    }
    b
}
/// Lines whose segments run through changes of attributes.
fn s_changes(c: &mut Ctx) -> R<()> {
    let (w, h) = (*c.rng.pick(&[16, 40, 80]), 20);
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(w, h)))?;
    let mut a = Attr::default();
    for _ in 0..8 {
        for _ in 0..c.rng.range(1, 6) {
            let n = c.rng.range(1, 20);
            let mut l = ML::default();
            let rich = c.rng.chance(1, 3);
            let live = c.rng.chance(1, 2);
            for _ in 0..n {
                let b = near(&mut c.rng, a);
                c.sig(&format!("{:?} {:?}", a, b));
                c.count("attribute_changes", 1);
                a = b;
                let k = c.rng.range(1, 4);
                let nl = rich && c.rng.chance(1, 2);
                let tc = TextCfg { wide: rich, zw: rich && !nl && !live, ctl: rich, nl, ascii: false };
                let mut t = gtext(&mut c.rng, k, tc);
                if nl && !t.starts_with('\n') && t.ends_with('\n') {
                    t.push('.');
                }
                l.v.push(Seg { t, a });
            }
            if c.rng.chance(1, 4) {
                l.v.push(Seg { t: String::new(), a: near(&mut c.rng, a) });
            }
            let short = l.chars().len() < w * 3;
            d.cmd(match if live { c.rng.range(1, 10) } else { 0 } {
                0 if c.rng.chance(1, 2) => Cmd::Print(Via::Clone, l),
                0 if !rich => Cmd::Wrap(Via::Io, l),
                1 => Cmd::Echo(l),
                2 if short => Cmd::Status(Some(l)),
                3 if short => Cmd::Prompt(l, true, false),
                4 if short => Cmd::Notice(l, Dur::Ms(3_600_000)),
                5 => {
                    a = Attr::default();
                    Cmd::Print(Via::Global, ML::plain("plain"))
                }
                _ => Cmd::Print(Via::Io, l),
            })?;
            c.count("lines", 1);
        }
        d.check()?;
        if c.rng.chance(1, 3) {
            let ks = some_keys(&mut c.rng, 4);
            d.keys(&ks)?;
            d.check()?;
        }
    }
    Ok(())
}
/// Style, colour, and back, for every pair of single attributes.
fn s_pairs(c: &mut Ctx) -> R<()> {
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(60, 20)))?;
    let mut all = vec![Attr::default()];
    for b in 0..5 {
        all.push(Attr { s: 1 << b, ..Attr::default() });
    }
    for x in 0..8 {
        all.push(Attr { s: 0, fg: Some(x), bg: None });
        all.push(Attr { s: 0, fg: None, bg: Some(x) });
    }
    for b in 0..5 {
        all.push(Attr { s: 1 << b, fg: Some(((c.idx + b) % 8) as u8), bg: Some((c.idx * 3 % 8) as u8) });
        all.push(Attr { s: 31 & !(1 << b), fg: None, bg: None });
    }
    let a = all[c.idx % all.len()];
    for chunk in all.chunks(9) {
        let mut l = ML::default();
        for b in chunk {
            l.v.push(Seg { t: "a".into(), a });
            l.v.push(Seg { t: "b c".into(), a: *b });
            c.sig(&format!("{:?} {:?}", a, b));
            c.count("attribute_changes", 2);
        }
        let ends = ML { v: vec![Seg { t: "end".into(), a }] };
        d.cmd(Cmd::Print(Via::Io, l.clone()))?;
        d.cmd(Cmd::Print(Via::Io, ML::plain("plain")))?;
        d.cmd(Cmd::Status(Some(l)))?;
        d.cmd(Cmd::Print(Via::Io, ends.clone()))?;
        d.cmd(Cmd::Prompt(ends, true, false))?;
        d.check()?;
        d.keys(&[Key::Ch('x'), Key::Ch('y'), Key::Left])?;
        d.check()?;
        d.cmd(Cmd::Print(Via::Io, ML::plain("after")))?;
        d.check()?;
    }
    Ok(())
}
/// Every control character, everywhere.
fn s_controls(c: &mut Ctx) -> R<()> {
    let mut all: Vec<char> = (0..0x20u32).chain(0x7f..0xa0).filter_map(char::from_u32).collect();
    all.retain(|x| *x != '\n');
    all.push('\u{2028}');
    all.push('\u{2029}');
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(40, 20)))?;
    for _ in 0..10 {
        let mut l = ML::default();
        for _ in 0..c.rng.range(1, 4) {
            let mut t = String::new();
            for _ in 0..c.rng.range(1, 4) {
                if c.rng.chance(1, 2) {
                    t.push(*c.rng.pick(&all));
                } else {
                    // whole sequences that would do something
                    t.push_str(c.rng.pick(&["\x1b[2J", "\x1b[31m", "\u{9b}7m", "\x1b]0;x\x07", "\r", "\x08\x08", "\x1bc", "\x1b[?25l"]));
                }
                let k = c.rng.below(3);
                t.push_str(&gtext(&mut c.rng, k, TextCfg::RICH));
            }
            l.v.push(Seg { t, a: any_attr(&mut c.rng) });
        }
        c.count("texts_with_controls", 1);
        c.sig(&l.text());
        let what = c.rng.below(6);
        d.cmd(match what {
            0 => Cmd::Print(Via::Io, l),
            1 => Cmd::Wrap(Via::Io, ML { v: l.v.into_iter().map(|s| Seg { t: s.t.replace(' ', "_"), ..s }).collect() }),
            2 => Cmd::Echo(l),
            3 => Cmd::Status(Some(l)),
            4 => Cmd::Prompt(l, true, false),
            _ => Cmd::Notice(l, Dur::Ms(3_600_000)),
        })?;
        d.check()?;
        if what == 5 {
            d.keys(&[Key::Ch('k')])?;
            d.check()?;
        }
    }
    // in the line being edited, by way of completion
    let mut t = String::from("<");
    for _ in 0..6 {
        t.push(*c.rng.pick(&all));
    }
    t.push('>');
    d.cmd(Cmd::Prompt(ML::default(), true, true))?;
    d.cmd(Cmd::SetCompletor(1, vec![CompAct::Ans(CompAns::Insert(t))]))?;
    d.s.sync()?;
    d.keys(&[Key::Ctl(9)])?;
    d.ui.any_cursor = true;
    d.check()
}
/// What a call leaves behind never shows up in the next.
fn s_mixed(c: &mut Ctx) -> R<()> {
    let (w, h) = (*c.rng.pick(&[20, 40, 80]), 20);
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(w, h)))?;
    let cfg = UiCfg { styled: true, rich: c.rng.chance(1, 2), notices: true, clear: true };
    for _ in 0..30 {
        if c.rng.chance(2, 3) {
            let x = next_cmd(&mut c.rng, &d.ui, cfg);
            c.sig(&format!("{:?}", x));
            d.cmd(x)?;
        } else {
            let ks = next_keys(&mut c.rng, &d.ui, cfg, 3);
            d.keys(&ks)?;
        }
        d.check()?;
    }
    Ok(())
}
pub fn c03() -> Check {
    Check {
        id: "C03",
        level: "exploration",
        rule: "lines of random and systematic runs of attribute changes and control characters, printed and in the live area; the attributes of every cell of the emulated screen are compared; distinct by the changes of attributes and texts used",
        assumptions: vec!["terminal behaviour as in the emulator"],
        scens: vec![
            scen("changes", 1400, s_changes),
            scen("pairs", 320, s_pairs),
            scen("controls", 700, s_controls),
            scen("mixed", 700, s_mixed),
        ],
    }
}
