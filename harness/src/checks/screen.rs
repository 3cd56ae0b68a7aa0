//! C02 (and pieces for others): the screen against the reference layout.
use super::*;
use std::os::fd::AsRawFd;

/// Sizes that are small enough for wrapping and scrolling to happen a lot.
pub fn gsize(r: &mut Rng) -> (usize, usize) {
    (*r.pick(&[10, 12, 13, 16, 20, 25, 40]), *r.pick(&[8, 10, 14, 24]))
}

/// A session in step with the model of its screen.
pub struct Drv {
    pub s: Sess,
    pub ui: Ui,
    /// responses the model expects
    pub want: Vec<Resp>,
    pub bells: usize,
    pub comp: Option<(u32, std::collections::VecDeque<CompAct>)>,
    pub calls: Vec<CompCall>,
}
impl Drv {
    pub fn start(o: Opts) -> R<Drv> {
        let (w, h) = (o.w, o.h);
        let mut s = Sess::start(o)?;
        s.call(Cmd::New)?;
        s.sync()?;
        Ok(Drv { s, ui: Ui::new(w, h), want: vec![], bells: 0, comp: None, calls: vec![] })
    }
    /// Take over (in the model) what the completor answers.
    fn model_tab(&mut self) -> bool {
        let Some((id, acts)) = self.comp.as_mut() else { return false };
        self.calls.push(CompCall {
            id: *id,
            input: self.ui.ed.text(),
            cursor: self.ui.ed.cur_bytes(),
            presses: self.ui.ed.tabs,
        });
        let act = acts.pop_front().unwrap_or(CompAct::Ans(CompAns::None));
        let mut cut = false;
        let ans = match act {
            CompAct::Ans(a) => a,
            CompAct::PrintThen(t, a) => {
                self.ui.print(&ML::plain(t));
                a
            }
            CompAct::NoticeThen(t, _, a) => {
                self.ui.notice = Some(ML::plain(t));
                cut = true;
                a
            }
            CompAct::Panic(_) | CompAct::Gate(_) => CompAns::None,
        };
        let ed = &mut self.ui.ed;
        match ans {
            CompAns::None => {}
            CompAns::Insert(t) => ed.insert(&t.chars().collect::<Vec<_>>()),
            CompAns::Move(n) => ed.cur = n % (ed.buf.len() + 1),
            CompAns::Replace(t, c) => {
                ed.cur = t[..c].chars().count();
                ed.buf = t.chars().collect();
            }
        }
        cut
    }
    /// Compare the calls of the completor with those expected.
    pub fn check_calls(&mut self) -> R<usize> {
        let got = self.s.call(Cmd::TakeCompCalls)?.calls;
        let want = std::mem::take(&mut self.calls);
        for (i, w) in want.iter().enumerate() {
            let Some(g) = got.get(i) else {
                bail!("completor was called {} times instead of {}; missing: {:?}", got.len(), want.len(), w)
            };
            ensure!(
                g.id == w.id && g.input == w.input && g.cursor == w.cursor,
                "line being edited: {:?}, should be {:?}",
                g,
                w
            );
            ensure!(g.presses == w.presses, "completor called with {:?}, should be {:?}", g, w);
        }
        ensure!(got.len() == want.len(), "completor was called {} times instead of {}", got.len(), want.len());
        Ok(got.len())
    }
    pub fn live_rows(ui: &Ui) -> usize {
        ui.live().0.len()
    }
    /// Apply an output call to the model.
    pub fn model_cmd(&mut self, c: &Cmd) {
        match c {
            Cmd::Print(_, l) | Cmd::Echo(l) => self.ui.print(l),
            Cmd::Wrap(_, l) => {
                let mut x = l.to_line();
                x.wrap_to_width(self.ui.w);
                let cs: Vec<(char, Attr)> = line_chars(&x);
                let last = line_last(&x);
                let rows = layout_printed(&cs, last, self.ui.w);
                self.ui.rows.extend(rows);
            }
            Cmd::Status(s) => self.ui.status = s.clone(),
            Cmd::RemoveStatus => self.ui.status = None,
            Cmd::Prompt(l, a, clear) => {
                self.ui.prompt = l.clone();
                self.ui.ed.allowed = *a;
                if *clear {
                    self.ui.ed.clear();
                }
            }
            Cmd::RemovePrompt(a, clear) => {
                self.ui.prompt = ML::default();
                self.ui.ed.allowed = *a;
                if *clear {
                    self.ui.ed.clear();
                }
            }
            Cmd::Notice(l, _) => self.ui.notice = Some(l.clone()),
            Cmd::Bell => self.bells += 1,
            Cmd::SetCompletor(id, acts) => self.comp = Some((*id, acts.clone().into())),
            Cmd::RemoveCompletor => self.comp = None,
            _ => {}
        }
    }
    /// Output call on both.
    pub fn cmd(&mut self, c: Cmd) -> R<()> {
        self.model_cmd(&c);
        self.ui.note_engaged();
        self.s.call(c)?;
        Ok(())
    }
    /// A key on the model only.
    pub fn model_key(&mut self, k: Key) {
        for e in self.ui.ed.key(k) {
            match e {
                Effect::Resp(r) => self.want.push(r),
                Effect::Bell => self.bells += 1,
                _ => {}
            }
        }
        self.ui.note_engaged();
    }
    /// Type keys on both; waits where the model needs it.
    pub fn keys(&mut self, ks: &[Key]) -> R<()> {
        let mut pending = vec![];
        for k in ks {
            if !self.ui.ed.allowed {
                pending.push(*k);
                continue;
            }
            if *k == Key::Ctl(12) {
                self.s.keys(&pending)?;
                pending.clear();
                self.s.sync()?;
                self.ui.notice = None;
                self.s.keys(&[*k])?;
                self.s.sync()?;
                self.ui.ed.key(*k);
                let sb = self.s.vt.scrollback.len();
                // (what has scrolled off the screen stays)
                self.ui.rows.truncate(sb.saturating_sub(self.s.base_rows));
                self.s.base_rows = self.s.base_rows.min(sb);
                self.s.opts.prerows.truncate(sb);
                continue;
            }
            self.ui.notice = None;
            let fx = self.ui.ed.key(*k);
            self.ui.note_engaged();
            pending.push(*k);
            for e in fx {
                match e {
                    Effect::Resp(r) => self.want.push(r),
                    Effect::Bell => self.bells += 1,
                    Effect::Tab => {
                        if self.model_tab() {
                            // (later keys would race with the notice)
                            self.s.keys(&pending)?;
                            pending.clear();
                            self.s.sync()?;
                        }
                    }
                    _ => {}
                }
            }
            self.ui.note_engaged();
        }
        self.s.keys(&pending)?;
        Ok(())
    }
    pub fn check(&mut self) -> R<()> {
        self.s.sync()?;
        self.s.expect_screen(&self.ui)
    }
    /// All responses so far are those the model expects.
    pub fn check_resps(&mut self) -> R<()> {
        let got = self.s.drain()?;
        let want = std::mem::take(&mut self.want);
        cmp_resps(&got, &want)
    }
}
pub fn cmp_resps(got: &[(Resp, u8)], want: &[Resp]) -> R<()> {
    let g: Vec<&Resp> = got.iter().map(|x| &x.0).collect();
    let w: Vec<&Resp> = want.iter().collect();
    ensure!(g == w, "responses {:?}, should be {:?}", g, w);
    for (r, code) in got {
        if let Some(c) = r.code() {
            ensure!(*code == c, "{:?} reports control code {} instead of {}", r, code, c);
        }
    }
    Ok(())
}
/// The attributes in effect at the end of a line.
pub fn line_last(l: &liso::Line) -> Attr {
    let mut l = l.clone();
    l.add_text("Q");
    line_chars(&l).last().unwrap().1
}
pub fn line_chars(l: &liso::Line) -> Vec<(char, Attr)> {
    l.chars()
        .map(|c| {
            (c.ch, Attr { s: from_style(c.style), fg: from_color(c.fg), bg: from_color(c.bg) })
        })
        .collect()
}

#[derive(Clone, Copy)]
pub struct UiCfg {
    pub styled: bool,
    pub rich: bool,
    pub notices: bool,
    pub clear: bool,
}
/// Next value for a live-area line: fresh, similar to the last, or removed.
pub fn next_live(r: &mut Rng, old: &ML, max: usize, c: TextCfg, styled: bool) -> ML {
    if old.is_empty() || r.chance(1, 2) {
        gline(r, max, c, styled)
    } else {
        mutate(r, old, c)
    }
}
/// No text, but perhaps a style.
fn empty(r: &mut Rng) -> ML {
    if r.chance(1, 2) {
        ML::default()
    } else {
        ML { v: vec![Seg { t: String::new(), a: gattr(r) }] }
    }
}
pub fn next_cmd(r: &mut Rng, ui: &Ui, cfg: UiCfg) -> Cmd {
    let (w, h) = (ui.w, ui.h);
    let tc = if cfg.rich { TextCfg { ctl: r.chance(1, 4), nl: r.chance(1, 3), ..TextCfg::RICH } } else { TextCfg::SIMPLE };
    let pc = TextCfg { zw: cfg.rich && r.chance(1, 4), ..tc };
    let styled = cfg.styled && r.chance(2, 3);
    loop {
        let c = match r.weighted(&[20, 5, 3, 18, 4, 20, 2, if cfg.notices { 8 } else { 0 }, 3]) {
            0 => Cmd::Print(
                r.pick(&[Via::Io, Via::Clone, Via::Global]).clone(),
                if r.chance(1, 12) { empty(r) } else { gline(r, w * 2 + 3, pc, styled) },
            ),
            1 => Cmd::Wrap(
                r.pick(&[Via::Io, Via::Clone, Via::Global]).clone(),
                gline(r, w * 3, TextCfg { ctl: false, nl: false, zw: false, ..tc }, styled),
            ),
            2 => Cmd::Echo(gline(r, w, tc, styled)),
            3 => {
                let old = ui.status.clone().unwrap_or_default();
                let m = r.range(1, w + w / 2);
                Cmd::Status(if r.chance(1, 10) {
                    Some(empty(r))
                } else {
                    Some(next_live(r, &old, m, tc, styled))
                })
            }
            4 => {
                if r.chance(1, 2) {
                    Cmd::Status(None)
                } else {
                    Cmd::RemoveStatus
                }
            }
            5 => {
                let m = r.range(1, w);
                let l = if r.chance(1, 8) { empty(r) } else { next_live(r, &ui.prompt, m, tc, styled) };
                Cmd::Prompt(l, r.chance(5, 6), r.chance(1, 4))
            }
            6 => Cmd::RemovePrompt(r.chance(5, 6), r.chance(1, 4)),
            7 => {
                let old = ui.notice.clone().unwrap_or_default();
                let m = r.range(1, w + w / 2);
                Cmd::Notice(if r.chance(1, 12) { empty(r) } else { next_live(r, &old, m, tc, styled) }, Dur::Ms(3_600_000))
            }
            _ => Cmd::Bell,
        };
        // the live area has to fit
        let mut u = ui.clone();
        match &c {
            Cmd::Status(s) => u.status = s.clone(),
            Cmd::RemoveStatus => u.status = None,
            Cmd::Prompt(l, _, clear) => {
                u.prompt = l.clone();
                if *clear {
                    u.ed.clear()
                }
            }
            Cmd::RemovePrompt(_, _) => u.prompt = ML::default(),
            Cmd::Notice(l, _) => u.notice = Some(l.clone()),
            _ => {}
        }
        let a = u.live().0.len();
        u.notice = None;
        if a.max(u.live().0.len()) + 2 > h {
            continue;
        }
        return c;
    }
}
pub fn next_keys(r: &mut Rng, ui: &Ui, cfg: UiCfg, n: usize) -> Vec<Key> {
    let kc = KeyCfg { wide: cfg.rich, clear: cfg.clear, ret: true, hist: true, resp: true, ..KeyCfg::EDIT };
    let mut u = ui.clone();
    let mut out = vec![];
    for _ in 0..n {
        let k = gkey(r, &kc);
        let mut t = u.clone();
        t.notice = None;
        t.ed.key(k);
        if t.live().0.len() + 2 > ui.h {
            continue;
        }
        u = t;
        out.push(k);
    }
    out
}

fn ui_walk(c: &mut Ctx, cfg: UiCfg, steps: usize) -> R<()> {
    let (w, h) = gsize(&mut c.rng);
    ui_walk_on(c, Opts::new(w, h), cfg, steps)
}
fn ui_walk_on(c: &mut Ctx, o: Opts, cfg: UiCfg, steps: usize) -> R<()> {
    let (w, h) = (o.w, o.h);
    let mut d = Drv::start(o)?;
    d.s.call(Cmd::SetClone)?;
    for _ in 0..steps {
        walk_step(c, &mut d, cfg)?;
    }
    d.check_resps()?;
    finish_walk(c, &mut d)
}
fn walk_step(c: &mut Ctx, d: &mut Drv, cfg: UiCfg) -> R<()> {
    if c.rng.chance(1, 2) {
        for _ in 0..c.rng.range(1, 4) {
            let x = next_cmd(&mut c.rng, &d.ui, cfg);
            c.sig(&format!("{:?}", x));
            d.cmd(x)?;
            c.count("output_calls", 1);
        }
    } else {
        let n = *c.rng.pick(&[1, 1, 2, 3, 6, 12]);
        let ks = next_keys(&mut c.rng, &d.ui, cfg, n);
        c.sig(&format!("{:?}", ks));
        c.count("keys", ks.len() as u64);
        d.keys(&ks)?;
    }
    d.check()
}
fn finish_walk(c: &mut Ctx, d: &mut Drv) -> R<()> {
    let (w, h) = (d.ui.w, d.ui.h);
    ensure!(d.s.vt.bells == d.bells, "{} bells rung instead of {}", d.s.vt.bells, d.bells);
    c.count("rows_printed", d.ui.rows.len() as u64);
    c.count("cells_compared", (d.s.stats.screens as usize * w * h) as u64);
    Ok(())
}

fn s_plain(c: &mut Ctx) -> R<()> {
    ui_walk(c, UiCfg { styled: false, rich: false, notices: false, clear: false }, 40)
}
fn s_styled(c: &mut Ctx) -> R<()> {
    ui_walk(c, UiCfg { styled: true, rich: false, notices: false, clear: false }, 40)
}
fn s_rich(c: &mut Ctx) -> R<()> {
    ui_walk(c, UiCfg { styled: true, rich: true, notices: false, clear: true }, 40)
}
fn s_all(c: &mut Ctx) -> R<()> {
    ui_walk(c, UiCfg { styled: true, rich: true, notices: true, clear: true }, 40)
}
/// The terminal does not say how big it is: 80 columns are assumed.
fn s_nosize(c: &mut Ctx) -> R<()> {
    let o = Opts { zero_size: true, ..Opts::new(80, 24) };
    ui_walk_on(c, o, UiCfg { styled: true, rich: true, notices: true, clear: true }, 25)
}

/// Very wide or very high terminals, with live areas of that size.
fn s_huge(c: &mut Ctx) -> R<()> {
    let cfg = UiCfg { styled: true, rich: true, notices: true, clear: true };
    if c.rng.chance(1, 2) {
        let o = Opts::new(c.rng.range(257, 420), c.rng.range(8, 20));
        return ui_walk_on(c, o, cfg, 25);
    }
    let (w, h) = (c.rng.range(10, 14), c.rng.range(320, 400));
    let mut d = Drv::start(Opts::new(w, h))?;
    d.s.call(Cmd::SetClone)?;
    for round in 0..3 {
        let rows = c.rng.range(256, 290);
        let mut t = String::new();
        for i in 0..rows {
            t.push_str(&i.to_string());
            t.push(if c.rng.chance(3, 4) { '\n' } else { ' ' });
        }
        d.cmd(Cmd::Prompt(ML::default(), true, false))?;
        d.cmd(if round == 1 {
            Cmd::Status(Some(ML::plain(t)))
        } else {
            Cmd::Prompt(ML::plain(t), true, false)
        })?;
        d.check()?;
        for _ in 0..5 {
            walk_step(c, &mut d, cfg)?;
        }
        d.cmd(Cmd::RemoveStatus)?;
    }
    d.check_resps()?;
    finish_walk(c, &mut d)
}
/// The user changes the size of the terminal while what is in the live area
/// fits both before and after it, so that it does not move.
fn s_resize(c: &mut Ctx) -> R<()> {
    let cfg = UiCfg { styled: true, rich: true, notices: true, clear: true };
    let (w, h) = gsize(&mut c.rng);
    let mut d = Drv::start(Opts::new(w, h))?;
    d.s.call(Cmd::SetClone)?;
    for _ in 0..4 {
        for _ in 0..c.rng.range(1, 6) {
            walk_step(c, &mut d, cfg)?;
        }
        let (w, h) = gsize(&mut c.rng);
        // (one row at either width, and nothing fills it to the edge)
        let fits = |ui: &Ui| {
            let (a, ac) = ui.live();
            let (b, bc) = Ui { w, ..ui.clone() }.live();
            let pad = |r: &LRow| r.last().map_or(true, |c| c.attr == Some(Attr::default()));
            a.len() == 1 && b.len() == 1 && ac.is_some() && ac == bc && pad(&a[0]) && pad(&b[0])
        };
        if !fits(&d.ui) {
            d.cmd(Cmd::RemoveStatus)?;
            if c.rng.chance(1, 2) {
                d.cmd(Cmd::Prompt(ML::plain("> "), true, true))?;
            } else {
                d.cmd(Cmd::RemovePrompt(true, true))?;
            }
            if d.ui.notice.is_some() {
                d.keys(&[Key::Ctl(1)])?;
            }
            d.check()?;
        }
        if !fits(&d.ui) {
            continue;
        }
        // The terminal keeps the row the cursor is in, and shows it at the top.
        let y = d.s.vt.cy;
        let mut row = d.s.vt.screen[y].clone();
        row.resize(w, Cell::blank());
        d.s.vt.screen = vec![vec![Cell::blank(); w]; h];
        d.s.vt.screen[0] = row;
        d.s.vt.cy = 0;
        d.s.vt.scrollback.clear();
        (d.s.vt.w, d.s.vt.h) = (w, h);
        (d.s.opts.w, d.s.opts.h) = (w, h);
        (d.ui.w, d.ui.h) = (w, h);
        d.ui.rows.clear();
        d.s.base_rows = 0;
        d.s.opts.prerows.clear();
        set_size(d.s.master.as_ref().unwrap().as_raw_fd(), w, h);
        c.sig(&format!("{}x{}", w, h));
        c.count("resizes", 1);
        d.check()?;
    }
    for _ in 0..4 {
        walk_step(c, &mut d, cfg)?;
    }
    d.check_resps()?;
    finish_walk(c, &mut d)
}

pub fn c02() -> Check {
    Check {
        id: "C02",
        level: "exploration",
        rule: "random walks of output calls and keys; after every batch the terminal emulator's screen, cursor and cursor visibility are compared with the reference layout; a batch is distinct by the calls or keys it consists of",
        assumptions: vec!["terminal behaviour as in the emulator"],
        scens: vec![
            scen("plain", 1500, s_plain),
            scen("styled", 2000, s_styled),
            scen("rich", 2500, s_rich),
            scen("all", 3000, s_all),
            scen("resize", 500, s_resize),
            scen("huge", 100, s_huge),
            scen("nosize", 150, s_nosize),
            scen("terms", 60, super::pipe::s_terms),
        ],
    }
}
