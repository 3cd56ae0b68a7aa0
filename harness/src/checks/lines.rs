//! C17 (building lines), C18 (wrapping), C19 (ANSI text): in this process.
use super::*;
use liso::{liso, liso_add, Color, Line, Style};
use std::borrow::Cow;

pub type Cs = Vec<(char, Attr)>;

/// What a line should hold.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct LM {
    pub cs: Cs,
    pub cur: Attr,
}
impl LM {
    pub fn add(&mut self, t: &str) {
        expand(t, self.cur, &mut self.cs);
    }
    pub fn text(&self) -> String {
        self.cs.iter().map(|x| x.0).collect()
    }
}

pub fn cur_attr(l: &Line) -> Attr {
    let (fg, bg) = l.get_colors();
    Attr { s: from_style(l.get_style()), fg: from_color(fg), bg: from_color(bg) }
}
/// Everything that can be seen of a line, against what should be.
pub fn check_line(l: &Line, m: &LM) -> R<()> {
    let t = m.text();
    ensure!(l.as_str() == t, "text is {:?}, should be {:?}", l.as_str(), t);
    ensure!(l.len() == t.len(), "len is {}, should be {}", l.len(), t.len());
    ensure!(l.is_empty() == t.is_empty(), "is_empty is {} for {:?}", l.is_empty(), t);
    ensure!(cur_attr(l) == m.cur, "active attributes are {:?}, should be {:?}", cur_attr(l), m.cur);
    let mut pos = 0;
    let mut n = 0;
    for x in l.chars() {
        let Some((c, a)) = m.cs.get(n) else { bail!("chars() yields more than {:?}", t) };
        let xa = Attr { s: from_style(x.style), fg: from_color(x.fg), bg: from_color(x.bg) };
        ensure!(
            x.ch == *c && xa == *a && x.index == pos,
            "character {} is {:?} {:?} at byte {}, should be {:?} {:?} at byte {}; text {:?}",
            n, x.ch, xa, x.index, c, a, pos, t
        );
        pos += c.len_utf8();
        n += 1;
    }
    ensure!(n == m.cs.len(), "chars() yields {} of {} characters of {:?}", n, m.cs.len(), t);
    Ok(())
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug)]
enum LOp {
    Text(String),
    SetStyle(u8),
    Toggle(u8),
    Activate(u8),
    Deactivate(u8),
    Clear,
    Fg(Option<u8>),
    Bg(Option<u8>),
    Colors(Option<u8>, Option<u8>),
    Reset,
    Break,
    Append(Vec<LOp>),
    Serde,
    Clone,
}

fn ltext(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(1, 40),
        _ => r.range(1, 6),
    };
    gtext(r, n, TextCfg { wide: true, zw: true, ctl: true, nl: true, ascii: false })
}
fn gstyle(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => 0,
        1 => r.below(32) as u8,
        _ => 1 << r.below(5),
    }
}
fn gcol(r: &mut Rng) -> Option<u8> {
    if r.chance(1, 4) { None } else { Some(r.below(8) as u8) }
}
fn glop(r: &mut Rng, depth: usize) -> LOp {
    match r.weighted(&[30, 8, 8, 8, 8, 3, 8, 8, 6, 4, 3, if depth < 2 { 8 } else { 0 }, 2, 2]) {
        0 => LOp::Text(ltext(r)),
        1 => LOp::SetStyle(gstyle(r)),
        2 => LOp::Toggle(gstyle(r)),
        3 => LOp::Activate(gstyle(r)),
        4 => LOp::Deactivate(gstyle(r)),
        5 => LOp::Clear,
        6 => LOp::Fg(gcol(r)),
        7 => LOp::Bg(gcol(r)),
        8 => LOp::Colors(gcol(r), gcol(r)),
        9 => LOp::Reset,
        10 => LOp::Break,
        11 => {
            let n = r.below(7);
            LOp::Append((0..n).map(|_| glop(r, depth + 1)).collect())
        }
        12 => LOp::Serde,
        _ => LOp::Clone,
    }
}

fn apply(l: &mut Line, m: &mut LM, op: &LOp, macros: bool, salt: usize) -> R<()> {
    match op {
        LOp::Text(t) => {
            if macros {
                liso_add!(l, t.as_str());
            } else {
                match salt % 3 {
                    0 => drop(l.add_text(t.as_str())),
                    1 => drop(l.add_text(t.clone())),
                    _ => drop(l.add_text(Cow::Borrowed(t.as_str()))),
                }
            }
            m.add(t);
        }
        LOp::SetStyle(s) => {
            match (macros, *s) {
                (true, 0) => {
                    liso_add!(l, plain);
                }
                (true, BOLD) => {
                    liso_add!(l, bold);
                }
                (true, DIM) => {
                    liso_add!(l, dim);
                }
                (true, UNDERLINE) => {
                    liso_add!(l, underline);
                }
                (true, INVERSE) if salt % 2 == 0 => {
                    liso_add!(l, inverse);
                }
                (true, INVERSE) => {
                    liso_add!(l, reverse);
                }
                (true, ITALIC) => {
                    liso_add!(l, italic);
                }
                _ => drop(l.set_style(to_style(*s))),
            }
            m.cur.s = *s;
        }
        LOp::Toggle(s) => {
            match (macros, *s) {
                (true, BOLD) => {
                    liso_add!(l, ^bold);
                }
                (true, DIM) => {
                    liso_add!(l, ^dim);
                }
                (true, UNDERLINE) => {
                    liso_add!(l, ^underline);
                }
                (true, INVERSE) if salt % 2 == 0 => {
                    liso_add!(l, ^inverse);
                }
                (true, INVERSE) => {
                    liso_add!(l, ^reverse);
                }
                (true, ITALIC) => {
                    liso_add!(l, ^italic);
                }
                _ => drop(l.toggle_style(to_style(*s))),
            }
            m.cur.s ^= *s;
        }
        LOp::Activate(s) => {
            match (macros, *s) {
                (true, BOLD) => {
                    liso_add!(l, +bold);
                }
                (true, DIM) => {
                    liso_add!(l, +dim);
                }
                (true, UNDERLINE) => {
                    liso_add!(l, +underline);
                }
                (true, INVERSE) if salt % 2 == 0 => {
                    liso_add!(l, +inverse);
                }
                (true, INVERSE) => {
                    liso_add!(l, +reverse);
                }
                (true, ITALIC) => {
                    liso_add!(l, +italic);
                }
                _ => drop(l.activate_style(to_style(*s))),
            }
            m.cur.s |= *s;
        }
        LOp::Deactivate(s) => {
            match (macros, *s) {
                (true, BOLD) => {
                    liso_add!(l, -bold);
                }
                (true, DIM) => {
                    liso_add!(l, -dim);
                }
                (true, UNDERLINE) => {
                    liso_add!(l, -underline);
                }
                (true, INVERSE) if salt % 2 == 0 => {
                    liso_add!(l, -inverse);
                }
                (true, INVERSE) => {
                    liso_add!(l, -reverse);
                }
                (true, ITALIC) => {
                    liso_add!(l, -italic);
                }
                _ => drop(l.deactivate_style(to_style(*s))),
            }
            m.cur.s &= !*s;
        }
        LOp::Clear => {
            if macros {
                liso_add!(l, plain);
            } else {
                l.clear_style();
            }
            m.cur.s = 0;
        }
        LOp::Fg(c) => {
            if macros {
                let x = to_color(*c);
                if salt % 2 == 0 {
                    liso_add!(l, fg = x);
                } else {
                    liso_add!(l, fg = to_color(*c));
                }
            } else {
                l.set_fg_color(to_color(*c));
            }
            m.cur.fg = *c;
        }
        LOp::Bg(c) => {
            if macros {
                let x = to_color(*c);
                if salt % 2 == 0 {
                    liso_add!(l, bg = x);
                } else {
                    liso_add!(l, bg = to_color(*c));
                }
            } else {
                l.set_bg_color(to_color(*c));
            }
            m.cur.bg = *c;
        }
        LOp::Colors(f, b) => {
            l.set_colors(to_color(*f), to_color(*b));
            m.cur.fg = *f;
            m.cur.bg = *b;
        }
        LOp::Reset => {
            if macros {
                liso_add!(l, reset);
            } else {
                l.reset_all();
            }
            m.cur = Attr::default();
        }
        LOp::Break => {
            l.reset_and_break();
            m.add("\n");
            m.cur = Attr::default();
        }
        LOp::Append(ops) => {
            let mut o = Line::new();
            let mut om = LM::default();
            for (i, x) in ops.iter().enumerate() {
                apply(&mut o, &mut om, x, macros, salt + i)?;
            }
            check_line(&o, &om)?;
            l.append_line(&o);
            check_line(&o, &om)?;
            let before = m.cur;
            m.cs.extend(om.cs.iter().cloned());
            // (what an empty line does to the active attributes is not said)
            if om.cs.is_empty() {
                let c = cur_attr(l);
                ensure!(c == om.cur || c == before, "active attributes {:?} after appending an empty line with {:?} to one with {:?}", c, om.cur, before);
                m.cur = c;
            } else {
                m.cur = om.cur;
            }
        }
        LOp::Serde => {
            let j = serde_json::to_string(&*l).map_err(|e| Fail::Viol(format!("serializing: {}", e)))?;
            let x: Line = serde_json::from_str(&j).map_err(|e| Fail::Viol(format!("deserializing {}: {}", j, e)))?;
            ensure!(x == *l, "{:?} comes back as {:?} from serialization", l, x);
            *l = x;
        }
        LOp::Clone => {
            let mut x = l.clone();
            ensure!(x == *l, "clone of {:?} is {:?}", l, x);
            // a clone is independent
            let y = x.clone();
            x.add_text("!").toggle_style(Style::DIM);
            ensure!(x != y, "adding to a line leaves it equal to {:?}", y);
            *l = y;
        }
    }
    Ok(())
}

fn s_build(c: &mut Ctx) -> R<()> {
    for _ in 0..20 {
        let n = c.rng.range(1, 30);
        let ops: Vec<LOp> = (0..n).map(|_| glop(&mut c.rng, 0)).collect();
        let macros = c.rng.chance(1, 2);
        let mut l = Line::new();
        let mut m = LM::default();
        check_line(&l, &m)?;
        for (i, op) in ops.iter().enumerate() {
            let salt = c.rng.below(60);
            apply(&mut l, &mut m, op, macros, salt)?;
            if let Err(Fail::Viol(e)) = check_line(&l, &m) {
                bail!("after {:?}: {}", &ops[..=i], e);
            }
            c.count("operations", 1);
        }
        c.count("chars_compared", m.cs.len() as u64);
        c.sig(&format!("{:?}", m));
        c.sample(|| format!("{:?}", ops));
        // the other interface gives an equal line
        let mut l2 = Line::new();
        let mut m2 = LM::default();
        for op in &ops {
            let salt = c.rng.below(60);
            apply(&mut l2, &mut m2, op, !macros, salt)?;
        }
        ensure!(l == l2, "macros and methods give different lines {:?} {:?} for {:?}", l, l2, ops);
        // a line that shows something else is not equal
        let mut ops3 = ops.clone();
        let k = c.rng.below(ops3.len());
        ops3[k] = glop(&mut c.rng, 0);
        let mut l3 = Line::new();
        let mut m3 = LM::default();
        for op in &ops3 {
            apply(&mut l3, &mut m3, op, macros, 0)?;
        }
        if m3 != m {
            ensure!(l3 != l, "{:?} counts as equal to {:?}", l3, l);
            c.count("unequal_pairs", 1);
        }
        let _: R<()> = check_line(&l3, &m3);
    }
    Ok(())
}

fn s_text(c: &mut Ctx) -> R<()> {
    for _ in 0..50 {
        let t = ltext(&mut c.rng);
        let mut m = LM::default();
        m.add(&t);
        let ls = [
            Line::from_str(&t),
            Line::from_string(t.clone()),
            Line::from_cow(Cow::Borrowed(&t)),
            Line::from_cow(Cow::Owned(t.clone())),
            Line::from(t.clone()),
            Line::from(t.as_str()),
            Line::from(Cow::Borrowed(t.as_str())),
            <Line as std::str::FromStr>::from_str(&t).unwrap(),
            liso!(t.as_str()),
            liso!(t.clone()),
            liso!(format!("{}", t)),
        ];
        for l in &ls {
            check_line(l, &m)?;
            ensure!(*l == ls[0], "{:?} is not equal to {:?}", l, ls[0]);
        }
        c.sig(&t);
        c.count("chars_compared", 11 * m.cs.len() as u64);
    }
    // every character there is, once
    if c.idx < 64 {
        let lo = c.idx as u32 * 0x4400;
        let mut t = String::new();
        for x in lo..lo + 0x4400 {
            if let Some(ch) = char::from_u32(x) {
                t.push(ch);
            }
        }
        let mut m = LM::default();
        m.add(&t);
        check_line(&Line::from_str(&t), &m)?;
        c.count("chars_compared", m.cs.len() as u64);
    }
    Ok(())
}

struct Dsp;
impl std::fmt::Display for Dsp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "dsp")
    }
}

/// Every form of the macros, against the methods.
fn macro_table() -> Vec<(&'static str, Line, LM)> {
    let mut v: Vec<(&'static str, Line, LM)> = vec![];
    let at = |s: u8, fg: Option<u8>, bg: Option<u8>| Attr { s, fg, bg };
    let lm = |p: &[(&str, Attr)], cur: Attr| {
        let mut m = LM::default();
        for (t, a) in p {
            m.cur = *a;
            m.add(t);
        }
        m.cur = cur;
        m
    };
    let d = Attr::default();
    macro_rules! row {
        ($l:expr, $m:expr) => {
            v.push((stringify!($l), $l, $m));
        };
    }
    macro_rules! styles {
        ($($n:ident = $b:expr),*) => {
            $(
                row!(liso!($n, "x"), lm(&[("x", at($b, None, None))], at($b, None, None)));
                row!(liso!($n "x"), lm(&[("x", at($b, None, None))], at($b, None, None)));
                row!(liso!(dim, fg = red, "a", $n, "x"), lm(&[("a", at(DIM, Some(1), None)), ("x", at($b, Some(1), None))], at($b, Some(1), None)));
                row!(liso!(italic, "a", +$n, "x"), lm(&[("a", at(ITALIC, None, None)), ("x", at(ITALIC | $b, None, None))], at(ITALIC | $b, None, None)));
                row!(liso!(underline, +bold, "a", +$n "x"), lm(&[("a", at(UNDERLINE | BOLD, None, None)), ("x", at(UNDERLINE | BOLD | $b, None, None))], at(UNDERLINE | BOLD | $b, None, None)));
                row!(liso!(bold +dim +underline +inverse +italic -$n, "x"), lm(&[("x", at(31 & !$b, None, None))], at(31 & !$b, None, None)));
                row!(liso!(bold, +dim, +underline, +reverse, +italic, "y", -$n "x"), lm(&[("y", at(31, None, None)), ("x", at(31 & !$b, None, None))], at(31 & !$b, None, None)));
                row!(liso!(bold+inverse, ^$n, "x", ^$n, "y"), lm(&[("x", at((BOLD | INVERSE) ^ $b, None, None)), ("y", at(BOLD | INVERSE, None, None))], at(BOLD | INVERSE, None, None)));
                row!(liso!(^$n "x", ^$n "y"), lm(&[("x", at($b, None, None)), ("y", d)], d));
                row!(liso!("x", $n), lm(&[("x", d)], at($b, None, None)));
                row!(liso!($n, "a", plain, "b"), lm(&[("a", at($b, None, None)), ("b", d)], d));
                row!(liso!($n, fg = blue, bg = cyan, "a", plain "b"), lm(&[("a", at($b, Some(4), Some(6))), ("b", at(0, Some(4), Some(6)))], at(0, Some(4), Some(6))));
                row!(liso!($n, fg = blue, bg = cyan, "a", reset, "b"), lm(&[("a", at($b, Some(4), Some(6))), ("b", d)], d));
                row!({ let mut z = liso!(dim "q"); liso_add!(z, +$n, "x"); z }, lm(&[("q", at(DIM, None, None)), ("x", at(DIM | $b, None, None))], at(DIM | $b, None, None)));
            )*
        };
    }
    styles!(bold = BOLD, dim = DIM, underline = UNDERLINE, inverse = INVERSE, reverse = INVERSE, italic = ITALIC);
    macro_rules! colors {
        ($($lo:ident $up:ident = $n:expr),*) => {
            $(
                row!(liso!(fg = $lo, "x"), lm(&[("x", at(0, $n, None))], at(0, $n, None)));
                row!(liso!(bg = $lo, "x"), lm(&[("x", at(0, None, $n))], at(0, None, $n)));
                row!(liso!(fg = $up, "x"), lm(&[("x", at(0, $n, None))], at(0, $n, None)));
                row!(liso!(bg = $up, "x"), lm(&[("x", at(0, None, $n))], at(0, None, $n)));
                row!(liso!("a", fg = $lo), lm(&[("a", d)], at(0, $n, None)));
                row!(liso!("a", bg = $up), lm(&[("a", d)], at(0, None, $n)));
                row!(liso!(bold, fg = red, bg = green, "a", fg = $up, "x"), lm(&[("a", at(BOLD, Some(1), Some(2))), ("x", at(BOLD, $n, Some(2)))], at(BOLD, $n, Some(2))));
                row!(liso!(bold, fg = red, bg = green, "a", bg = $lo, "x"), lm(&[("a", at(BOLD, Some(1), Some(2))), ("x", at(BOLD, Some(1), $n))], at(BOLD, Some(1), $n)));
            )*
        };
    }
    colors!(black Black = Some(0), red Red = Some(1), green Green = Some(2), yellow Yellow = Some(3), blue Blue = Some(4), magenta Magenta = Some(5), cyan Cyan = Some(6), white White = Some(7), none None = None);
    let var = Some(Color::Magenta);
    fn fun(x: bool) -> Option<Color> {
        if x { Some(Color::Cyan) } else { None }
    }
    row!(liso!(fg = var, "x"), lm(&[("x", at(0, Some(5), None))], at(0, Some(5), None)));
    row!(liso!(bg = var, "x"), lm(&[("x", at(0, None, Some(5)))], at(0, None, Some(5))));
    row!(liso!(fg = fun(true), "x", bg = fun(true), "y", fg = fun(false), "z", bg = fun(false)), lm(&[("x", at(0, Some(6), None)), ("y", at(0, Some(6), Some(6))), ("z", at(0, None, Some(6)))], d));
    row!(liso!(fg = Some(Color::White), bg = Some(Color::Black), "x"), lm(&[("x", at(0, Some(7), Some(0)))], at(0, Some(7), Some(0))));
    row!(liso!(), lm(&[], d));
    row!(liso!(""), lm(&[], d));
    row!(liso!("a", "b", "c"), lm(&[("abc", d)], d));
    row!(liso!("a", "b", "c",), lm(&[("abc", d)], d));
    row!(liso!(bold,), lm(&[], at(BOLD, None, None)));
    row!(liso!(reset, "a", reset), lm(&[("a", d)], d));
    row!(liso!(format!("{}-{}", 1, Dsp), bold, format!("{:?}", "q")), lm(&[("1-dsp", d), ("\"q\"", at(BOLD, None, None))], at(BOLD, None, None)));
    row!(liso!("Type \x03 to quit."), lm(&[("Type ", d), ("^C", at(INVERSE, None, None)), (" to quit.", d)], d));
    row!(liso!(inverse, "a\tb"), lm(&[("a", at(INVERSE, None, None)), ("^I", d), ("b", at(INVERSE, None, None))], at(INVERSE, None, None)));
    row!(liso!(ansi "a\x1b[1mb\x1b[0mc"), lm(&[("a", d), ("b", at(BOLD, None, None)), ("c", d)], d));
    row!(liso!(fg = red, ansi "a\x1b[4mb", dim, "c"), lm(&[("a", at(0, Some(1), None)), ("b", at(UNDERLINE, Some(1), None)), ("c", at(DIM, Some(1), None))], at(DIM, Some(1), None)));
    row!(liso!(ansi format!("\x1b[{}mx", 7), "y"), lm(&[("xy", at(INVERSE, None, None))], at(INVERSE, None, None)));
    row!({ let mut z = Line::new(); liso_add!(z, "a", bold, "b"); liso_add!(z, plain, "c",); liso_add!(z, reset); z }, lm(&[("a", d), ("b", at(BOLD, None, None)), ("c", d)], d));
    row!({ let mut z = liso!(fg = red, "a"); z.append_line(&liso!(bold, "b", reset)); liso_add!(z, "c"); z }, lm(&[("a", at(0, Some(1), None)), ("b", at(BOLD, None, None)), ("c", d)], d));
    v
}
fn s_macros(c: &mut Ctx) -> R<()> {
    for (src, l, m) in macro_table() {
        if let Err(Fail::Viol(e)) = check_line(&l, &m) {
            bail!("{}: {}", src, e);
        }
        c.sig(src);
        c.count("macro_forms", 1);
    }
    Ok(())
}
/// `endfills_same_as` must not call two different paddings alike.
fn s_endfill(c: &mut Ctx) -> R<()> {
    let cols = [None, Some(Color::Black), Some(Color::Red), Some(Color::White)];
    let mk = |s: u8, fg, bg| liso::LineChar { index: 0, ch: 'x', style: to_style(s), fg, bg };
    for s1 in 0..32 {
        for s2 in 0..32 {
            for f1 in cols {
                for b1 in cols {
                    for f2 in cols {
                        for b2 in cols {
                            let (x, y) = (mk(s1, f1, b1), mk(s2, f2, b2));
                            let r = x.endfills_same_as(&y);
                            ensure!(r == y.endfills_same_as(&x), "endfills_same_as is not symmetric: {:?} {:?}", x, y);
                            let look = |s: u8, f: Option<Color>, b: Option<Color>| {
                                let (inv, und) = (s & INVERSE != 0, s & UNDERLINE != 0);
                                (inv, und, if inv || und { Some(f) } else { None }, if !inv || und { Some(b) } else { None })
                            };
                            if r {
                                ensure!(look(s1, f1, b1) == look(s2, f2, b2), "spaces in {:?} and {:?} are called indistinguishable", x, y);
                            }
                            if (s1, f1, b1) == (s2, f2, b2) {
                                ensure!(r, "{:?} is called different from itself", x);
                            }
                        }
                    }
                }
            }
        }
    }
    c.count("pairs", 32 * 32 * 256);
    Ok(())
}

pub fn c17() -> Check {
    Check {
        id: "C17",
        level: "exploration",
        rule: "random building programs run through methods and macros beside a list of (character, attributes); after every operation everything the line shows is compared; distinct by resulting line; also every documented macro form",
        assumptions: vec![],
        scens: vec![
            scen("build", 30000, s_build).inproc(),
            scen("text", 2000, s_text).inproc(),
            scen("macros", 1, s_macros).inproc().finite(),
            scen("endfill", 1, s_endfill).inproc().finite(),
        ],
    }
}

// ---------------------------------------------------------------- C18

fn wtext(r: &mut Rng, kind: usize) -> String {
    let mut s = String::new();
    let n = r.range(1, 25);
    let word = |r: &mut Rng| -> String {
        let n = match r.below(8) {
            0 => r.range(10, 50),
            1 => 1,
            _ => r.range(1, 9),
        };
        (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'x', 'Y', 'Z', '0', '9'])).collect()
    };
    for i in 0..n {
        if i > 0 || r.chance(1, 4) {
            match r.weighted(&[60, 10, 8, 6, 3]) {
                0 => s.push(' '),
                1 => s.push('\n'),
                2 => (0..r.range(2, 12)).for_each(|_| s.push(' ')),
                3 => {}
                _ => s.push_str("\n\n"),
            }
        }
        match if kind == 0 { 0 } else { r.below(9) } {
            0..=2 => s.push_str(&word(r)),
            3 => {
                let n = r.range(1, 8);
                s.push_str(&gtext(r, n, TextCfg { wide: true, zw: kind > 1, ctl: false, nl: false, ascii: false }));
            }
            4 => (0..r.range(1, 6)).for_each(|_| s.push(*r.pick(W2))),
            5 => {
                let (a, b) = (word(r), word(r));
                let sep = *r.pick(&["-", "--", "/", ".", "\u{ad}", "’", "\u{a0}", "?", "\u{2014}", ",", "(", ")", "\u{200b}", "\u{3000}", "\u{2003}"]);
                if matches!(sep, "\u{ad}" | "\u{200b}") && kind < 2 {
                    s.push_str(&a);
                } else {
                    s.push_str(&format!("{}{}{}", a, sep, b));
                }
            }
            6 => s.push_str(*r.pick(&["http://example.com/a/b?c=d&e=f", "foo-bar-baz", "e\u{301}e\u{301}", "שלום עולם", "ひらがな、カタカナ。漢字", "don't", "\"quoted\"", "--long-option", "a.b.c.d", "100%", "$1.00", "[x](y)"])),
            7 if kind > 1 => (0..r.range(1, 4)).for_each(|_| s.push(*r.pick(W0))),
            8 => s.push_str(*r.pick(&["\t", "\u{7}", "\u{85}", "\u{2028}"])),
            _ => s.push_str(&word(r)),
        }
    }
    if r.chance(1, 5) {
        (0..r.range(1, 10)).for_each(|_| s.push(*r.pick(&[' ', ' ', '\n'])));
    }
    s
}

/// The independent table of widths covers only some characters.
fn knows_width(c: char) -> bool {
    c.is_ascii() || W1.contains(&c) || W2.contains(&c) || W0.contains(&c)
}

fn is_sp(c: char) -> bool {
    c == ' ' || c == '\n'
}
/// Splits into gaps (runs of spaces and breaks) and the characters between.
fn gaps(cs: &Cs) -> (Vec<Cs>, Cs) {
    let mut g = vec![vec![]];
    let mut n = vec![];
    for x in cs {
        if is_sp(x.0) {
            g.last_mut().unwrap().push(*x);
        } else {
            n.push(*x);
            g.push(vec![]);
        }
    }
    (g, n)
}
fn subseq(a: &[(char, Attr)], b: &[(char, Attr)]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| y == x))
}
pub fn check_wrap(o: &Cs, n: &Cs, w: usize, widths: bool) -> Result<(), String> {
    let (go, no) = gaps(o);
    let (gn, nn) = gaps(n);
    if no != nn {
        let k = no.iter().zip(nn.iter()).position(|(a, b)| a != b).unwrap_or(no.len().min(nn.len()));
        return Err(format!("visible character {} was {:?}, is now {:?}", k, no.get(k), nn.get(k)));
    }
    let nls = |g: &Cs| -> Cs { g.iter().filter(|x| x.0 == '\n').cloned().collect() };
    let sps = |g: &Cs| -> Cs { g.iter().filter(|x| x.0 == ' ').cloned().collect() };
    let last = go.len() - 1;
    for i in 0..go.len() {
        let (a, b) = (&go[i], &gn[i]);
        if a == b {
            continue;
        }
        let (na, nb) = (nls(a), nls(b));
        if !subseq(&na, &nb) {
            return Err(format!("a line break before visible character {} is gone: {:?} -> {:?}", i, a, b));
        }
        if !subseq(&sps(b), &sps(a)) {
            return Err(format!("spaces before visible character {} were added: {:?} -> {:?}", i, a, b));
        }
        if nb.is_empty() && i != last {
            return Err(format!("spaces before visible character {} changed within a row: {:?} -> {:?}", i, a, b));
        }
        if na.len() == nb.len() && i != last {
            // no break was put here: what precedes the next character stays
            let tail = |g: &Cs| g.iter().rev().take_while(|x| x.0 == ' ').count();
            if tail(a) != tail(b) {
                return Err(format!("indentation of visible character {} changed: {:?} -> {:?}", i, a, b));
            }
        }
    }
    if !widths {
        return Ok(());
    }
    // paragraphs that fit stay
    let para_w: Vec<usize> = o.split(|x| x.0 == '\n').map(|p| p.iter().map(|x| cwidth(x.0)).sum()).collect();
    let mut p = 0;
    for i in 0..go.len() {
        let k = nls(&go[i]).len();
        if para_w[p..=p + k].iter().all(|x| *x <= w) && go[i] != gn[i] {
            return Err(format!("part of a line that fits changed: {:?} -> {:?} before visible character {}", go[i], gn[i], i));
        }
        p += k;
    }
    // rows fit
    for row in n.split(|x| x.0 == '\n') {
        let rw: usize = row.iter().map(|x| cwidth(x.0)).sum();
        if rw > w && row.iter().filter(|x| cwidth(x.0) > 0).count() > 1 {
            return Err(format!("a row is {} columns wide: {:?}", rw, row.iter().map(|x| x.0).collect::<String>()));
        }
    }
    // words that fit are not broken (next to punctuation the rules of Unicode
    // line breaking may glue more than the word together, even across spaces)
    let plain = |k: Option<&(char, Attr)>| k.map_or(true, |x| x.0.is_ascii_alphanumeric());
    let mut i: usize = 0; // visible characters so far
    for word in o.split(|x| is_sp(x.0)) {
        if word.len() <= w
            && word.iter().all(|x| x.0.is_ascii_alphanumeric())
            && plain(i.checked_sub(1).and_then(|k| no.get(k)))
            && plain(no.get(i + word.len()))
        {
            for k in 1..word.len() {
                if !gn[i + k].is_empty() {
                    return Err(format!("the word {:?} is broken", word.iter().map(|x| x.0).collect::<String>()));
                }
            }
        }
        i += word.len();
    }
    Ok(())
}

fn lmodel(l: &Line) -> LM {
    LM { cs: line_chars(l), cur: cur_attr(l) }
}

fn wrap_once(c: &mut Ctx, l: &mut Line, w: usize, what: &str) -> R<()> {
    let before = lmodel(l);
    let desc = format!("{} {:?} width {}", what, l.as_str(), w);
    let orig = l.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.wrap_to_width(w)));
    if r.is_err() {
        bail!("wrapping panicked: {} {:?}", desc, orig);
    }
    let after = LM { cs: line_chars(l), cur: cur_attr(l) };
    // the line itself is consistent
    check_line(l, &LM { cs: after.cs.clone(), cur: after.cur })?;
    ensure!(after.cur == before.cur, "{}: wrapping changed the active attributes from {:?} to {:?}", desc, before.cur, after.cur);
    let known = before.cs.iter().all(|x| knows_width(x.0));
    if known {
        c.count("with_widths", 1);
    }
    if let Err(e) = check_wrap(&before.cs, &after.cs, w, known) {
        bail!("{}: {}\n  result {:?}\n  from {:?}\n  to   {:?}", desc, e, l.as_str(), orig, l);
    }
    c.count("wraps", 1);
    let broken = after.cs.len() != before.cs.len() || after.cs != before.cs;
    if broken {
        c.count("wraps_with_breaks", 1);
    }
    c.sig(&format!("{}|{:?}", desc, broken));
    Ok(())
}

fn gwidth(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => r.range(1, 4),
        1 => r.range(60, 120),
        _ => r.range(4, 30),
    }
}

fn style_text(r: &mut Rng, t: &str, styled: bool) -> Line {
    let mut l = Line::new();
    if !styled {
        l.add_text(t);
        return l;
    }
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let a = gattr(r);
        l.set_style(to_style(a.s)).set_colors(to_color(a.fg), to_color(a.bg));
        let k = r.range(1, 9).min(cs.len() - i);
        l.add_text(cs[i..i + k].iter().collect::<String>());
        i += k;
    }
    if r.chance(1, 3) {
        let a = gattr(r);
        l.set_style(to_style(a.s)).set_colors(to_color(a.fg), to_color(a.bg));
    }
    l
}

fn wrap_case(c: &mut Ctx, kind: usize) -> R<()> {
    for _ in 0..30 {
        let t = wtext(&mut c.rng, kind);
        let styled = c.rng.chance(2, 3);
        let mut l = style_text(&mut c.rng, &t, styled);
        let w = gwidth(&mut c.rng);
        wrap_once(c, &mut l, w, "")?;
        if c.rng.chance(1, 4) {
            // wrapped lines can be added to and wrapped again
            let mut m = lmodel(&l);
            let t2 = wtext(&mut c.rng, kind);
            l.add_text(t2.as_str());
            m.add(&t2);
            check_line(&l, &m)?;
            let w2 = gwidth(&mut c.rng);
            wrap_once(c, &mut l, w2, "(again)")?;
        }
        let s = l.as_str().to_string();
        c.sample(|| format!("{:?} at {} -> {:?}", t, w, s));
    }
    Ok(())
}
fn s_ascii(c: &mut Ctx) -> R<()> {
    wrap_case(c, 0)
}
fn s_mixed(c: &mut Ctx) -> R<()> {
    wrap_case(c, 1)
}
fn s_zero(c: &mut Ctx) -> R<()> {
    wrap_case(c, 2)
}
/// Small alphabets, short texts, narrow widths: everything.
fn s_exhaustive(c: &mut Ctx) -> R<()> {
    let alpha = ['a', ' ', '\n', '日', '-', 'é'];
    let len = if c.thorough { 7 } else { 6 };
    let total = alpha.len().pow(len as u32);
    // the work is spread over the cases
    let parts = 64;
    let mut i = c.idx;
    let (b, d) = (Attr { s: BOLD, fg: None, bg: None }, Attr { s: 0, fg: None, bg: Some(2) });
    while i < total {
        let mut x = i;
        let mut cs = vec![];
        for _ in 0..len {
            cs.push(alpha[x % alpha.len()]);
            x /= alpha.len();
        }
        for w in 1..=5 {
            let mut l = Line::new();
            for (k, ch) in cs.iter().enumerate() {
                if k % 2 == 0 {
                    let a = if k % 4 == 0 { b } else { d };
                    l.set_style(to_style(a.s)).set_colors(to_color(a.fg), to_color(a.bg));
                }
                l.add_text(ch.to_string());
            }
            let before = lmodel(&l);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.wrap_to_width(w)));
            ensure!(r.is_ok(), "wrapping {:?} to {} panicked", cs, w);
            let after = lmodel(&l);
            if let Err(e) = check_wrap(&before.cs, &after.cs, w, true) {
                bail!("{:?} width {}: {}: {:?}", before.text(), w, e, after.text());
            }
            ensure!(after.cur == before.cur, "active attributes changed");
        }
        c.count("wraps", 5);
        i += parts;
    }
    Ok(())
}
fn s_screen(c: &mut Ctx) -> R<()> {
    let (mut w, h) = gsize(&mut c.rng);
    // (sometimes a very wide terminal, and lines to match)
    let wide = c.rng.chance(1, 5);
    if wide {
        w = *c.rng.pick(&[81, 100, 133, 201, 256, 257, 300, 513, 1200]);
    }
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(w, h)))?;
    for _ in 0..6 {
        let mut t = wtext(&mut c.rng, 1);
        if wide {
            for _ in 0..c.rng.range(0, 40) {
                t.push(' ');
                t.push_str(&wtext(&mut c.rng, 1));
            }
        }
        let t: String = t.chars().filter(|x| knows_width(*x)).collect();
        let l = ML { v: t.chars().collect::<Vec<_>>().chunks(6).map(|k| Seg { t: k.iter().collect(), a: gattr(&mut c.rng) }).collect() };
        c.sig(&format!("{:?}", l));
        d.cmd(Cmd::Wrap(if c.rng.chance(1, 2) { Via::Io } else { Via::Clone }, l))?;
        d.check()?;
    }
    Ok(())
}

pub fn c18() -> Check {
    Check {
        id: "C18",
        level: "exploration",
        rule: "styled texts of many scripts with random spaces and breaks, wrapped to random widths (and all texts of 6 or 7 characters over a small alphabet at widths 1 to 5); the gaps between visible characters before and after are compared, the rows measured with an independent width table; distinct by text and width",
        assumptions: vec!["widths as in the harness's table, for the characters it covers (rows holding others are only checked for lost, added or restyled text)"],
        scens: vec![
            scen("ascii", 6000, s_ascii).inproc(),
            scen("mixed", 6000, s_mixed).inproc(),
            scen("zero-width", 3000, s_zero).inproc(),
            scen("exhaustive", 64, s_exhaustive).inproc().finite(),
            scen("screen", 150, s_screen),
        ],
    }
}

// ---------------------------------------------------------------- C19

/// A conforming interpreter of what is documented.
pub fn ansi(m: &mut LM, t: &str) {
    let cs: Vec<char> = t.chars().collect();
    let mut plain = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\u{1b}' && cs.get(i + 1) == Some(&'[') {
            let mut j = i + 2;
            while j < cs.len() && ('\u{30}'..='\u{3f}').contains(&cs[j]) {
                j += 1;
            }
            if cs.get(j) == Some(&'m') {
                m.add(&plain);
                plain.clear();
                let p: String = cs[i + 2..j].iter().collect();
                sgr(m, &p);
                i = j + 1;
                continue;
            }
        }
        plain.push(cs[i]);
        i += 1;
    }
    m.add(&plain);
}
fn sgr(m: &mut LM, p: &str) {
    let codes: Vec<Option<u32>> = p
        .split(';')
        .map(|x| if x.is_empty() { Some(0) } else { x.parse::<u32>().ok() })
        .collect();
    let mut i = 0;
    while i < codes.len() {
        let a = &mut m.cur;
        match codes[i] {
            Some(0) => *a = Attr::default(),
            Some(1) => a.s |= BOLD,
            Some(2) => a.s |= DIM,
            Some(3) => a.s |= ITALIC,
            Some(4) => a.s |= UNDERLINE,
            Some(7) => a.s |= INVERSE,
            Some(21) => a.s &= !BOLD,
            Some(22) => a.s &= !(BOLD | DIM),
            Some(23) => a.s &= !ITALIC,
            Some(24) => a.s &= !UNDERLINE,
            Some(27) => a.s &= !INVERSE,
            Some(n @ 30..=37) => a.fg = Some(n as u8 - 30),
            Some(39) => a.fg = None,
            Some(n @ 40..=47) => a.bg = Some(n as u8 - 40),
            Some(49) => a.bg = None,
            Some(38 | 48 | 58) => match codes.get(i + 1) {
                Some(Some(5)) => i += 2,
                Some(Some(2)) => i += 4,
                _ => {}
            },
            _ => {}
        }
        i += 1;
    }
}

fn gcode(r: &mut Rng, out: &mut Vec<String>) {
    match r.weighted(&[30, 12, 10, 6, 6, 6]) {
        0 => out.push(
            r.pick(&[0u32, 1, 2, 3, 4, 7, 21, 22, 23, 24, 27, 30, 31, 32, 33, 34, 35, 36, 37, 39, 40, 41, 42, 43, 44, 45, 46, 47, 49]).to_string(),
        ),
        1 => out.push(String::new()),
        2 => {
            out.push(r.pick(&["38", "48", "58"]).to_string());
            if r.chance(1, 2) {
                out.push("5".into());
                out.push(r.pick(&["0", "1", "31", "255", "", "7"]).to_string());
            } else {
                out.push("2".into());
                for _ in 0..3 {
                    out.push(r.pick(&["0", "1", "4", "255", "", "41"]).to_string());
                }
            }
        }
        3 => out.push(r.below(120).max(50).to_string().replace("58", "59")),
        4 => out.push(r.pick(&["00", "01", "007", "0031", "4294967295", "4294967296", "99999999999999999999", "4:3", "38:5:1", "38:2::1:2:3", ":", "1:", "256", "257", "286"]).to_string()),
        _ => out.push(r.pick(&["5", "6", "8", "9", "10", "20", "25", "28", "29", "50", "53", "90", "97", "100", "107", "65537"]).to_string()),
    }
}
fn gansi(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 12) {
        match r.weighted(&[30, 50, 8, 8, 6, 4, 3]) {
            0 => {
                let n = r.range(1, 6);
                s.push_str(&gtext(r, n, TextCfg { wide: true, zw: true, ctl: true, nl: true, ascii: false }));
            }
            1 => {
                let mut c = vec![];
                for _ in 0..r.range(0, 4) {
                    gcode(r, &mut c);
                }
                if r.chance(1, 20) {
                    // ends within an extended color
                    let n = r.below(4);
                    c.push(r.pick(&["38", "48", "58"]).to_string());
                    c.extend(["2", "9", "1"].iter().take(n).map(|x| x.to_string()));
                }
                s.push_str(&format!("\u{1b}[{}m", c.join(";")));
            }
            2 => s.push_str(*r.pick(&["\u{1b}", "\u{1b}[", "\u{1b}[1", "\u{1b}[1;", "\u{1b}\u{1b}", "\u{1b}[\u{1b}", "\u{1b}[31", "\u{1b}[1;\u{1b}", "\u{1b}[;", "\u{9b}31m", "\u{1b}[日", "\u{1b}[1é", "\u{1b}é"])),
            3 => s.push_str(*r.pick(&["\u{1b}[2J", "\u{1b}[1;1H", "\u{1b}[A", "\u{1b}]0;t\u{7}", "\u{1b}(B", "\u{1b}c", "\u{1b}[1 m", "\u{1b}[!m", "\u{1b}[31!m", "\u{1b}[31M", "\u{1b}[0K", "\u{1b}[1;31n", "\u{1b}[m", "\u{1b}[ m", "\u{1b}Om", "\u{1b}[1\u{7}m"])),
            4 => s.push_str(*r.pick(&["m", "[", "[1m", ";", "0", "1;31m", "^["])),
            5 => s.push('\n'),
            _ => {
                // a long sequence; or one that turns out not to be one
                let mut c = vec![];
                for _ in 0..*r.pick(&[5, 16, 17, 33, 70, 300]) {
                    gcode(r, &mut c);
                }
                s.push_str(&format!("\u{1b}[{}{}", c.join(";"), r.pick(&["m", "m", "m", "M", "", "é", " m", "\u{1b}[m", "\n"])));
            }
        }
    }
    s
}
fn s_ansi(c: &mut Ctx) -> R<()> {
    for _ in 0..40 {
        let a = if c.rng.chance(1, 2) { gattr(&mut c.rng) } else { Attr::default() };
        let mut l = Line::new();
        l.set_style(to_style(a.s)).set_colors(to_color(a.fg), to_color(a.bg));
        let mut m = LM { cs: vec![], cur: a };
        let mut all = vec![];
        for _ in 0..c.rng.range(1, 3) {
            let t = gansi(&mut c.rng);
            all.push(t.clone());
            match c.rng.below(4) {
                0 => drop(l.add_ansi_text(t.clone())),
                1 => drop(l.add_ansi_text(Cow::Borrowed(t.as_str()))),
                2 => {
                    liso_add!(l, ansi t.as_str());
                }
                _ => drop(l.add_ansi_text(t.as_str())),
            }
            ansi(&mut m, &t);
            if let Err(Fail::Viol(e)) = check_line(&l, &m) {
                bail!("{:?} starting with {:?}: {}", all, a, e);
            }
            if c.rng.chance(1, 3) {
                l.add_text("+");
                m.add("+");
            }
        }
        c.count("texts", all.len() as u64);
        c.count("sequences", all.iter().map(|t| t.matches("\u{1b}[").count() as u64).sum());
        c.sig(&format!("{:?}{:?}", a, all));
        c.sample(|| format!("{:?}", all));
    }
    Ok(())
}
/// Every text over a small alphabet.
fn s_ansi_exhaustive(c: &mut Ctx) -> R<()> {
    let alpha = ["\u{1b}", "[", "m", "1", "3", ";", "é", "0"];
    let len = if c.thorough { 8 } else { 6 };
    let total = alpha.len().pow(len);
    let parts = 64;
    let mut i = c.idx;
    let a = Attr { s: DIM, fg: Some(3), bg: None };
    while i < total {
        let mut x = i;
        let mut t = String::new();
        for _ in 0..len {
            t.push_str(alpha[x % alpha.len()]);
            x /= alpha.len();
        }
        let mut l = Line::new();
        l.set_style(to_style(a.s)).set_colors(to_color(a.fg), to_color(a.bg));
        let mut m = LM { cs: vec![], cur: a };
        l.add_ansi_text(t.as_str());
        ansi(&mut m, &t);
        if let Err(Fail::Viol(e)) = check_line(&l, &m) {
            bail!("{:?}: {}", t, e);
        }
        c.count("texts", 1);
        i += parts;
    }
    Ok(())
}
/// Every code number by itself and between others.
fn s_codes(c: &mut Ctx) -> R<()> {
    for n in 0..400u32 {
        for form in 0..4 {
            for a in [Attr::default(), Attr { s: 31, fg: Some(5), bg: Some(6) }, Attr { s: BOLD | ITALIC, fg: Some(1), bg: None }] {
                if matches!(n, 38 | 48 | 58) && form > 1 {
                    continue;
                }
                let t = match form {
                    0 => format!("\u{1b}[{}mx", n),
                    1 => format!("\u{1b}[4;{}mx", n),
                    2 => format!("\u{1b}[{};35mx", n),
                    _ => format!("\u{1b}[2;{};3mx", n),
                };
                let mut l = Line::new();
                l.set_style(to_style(a.s)).set_colors(to_color(a.fg), to_color(a.bg));
                let mut m = LM { cs: vec![], cur: a };
                l.add_ansi_text(t.as_str());
                ansi(&mut m, &t);
                if let Err(Fail::Viol(e)) = check_line(&l, &m) {
                    bail!("{:?} starting with {:?}: {}", t, a, e);
                }
                c.count("codes", 1);
            }
        }
    }
    Ok(())
}

pub fn c19() -> Check {
    Check {
        id: "C19",
        level: "exploration",
        rule: "generated texts with well-formed, truncated, malformed and adjacent escape sequences added with ANSI interpretation beside an independent interpreter, every character and the active attributes compared; all texts of 6 (thorough: 8) characters over an alphabet of 8, and every code from 0 to 399; distinct by text",
        assumptions: vec!["extended colors are generated with 2 or 5 as their kind only; private sequences (with <, =, > or ?) are not generated"],
        scens: vec![
            scen("random", 40000, s_ansi).inproc(),
            scen("exhaustive", 64, s_ansi_exhaustive).inproc().finite(),
            scen("codes", 1, s_codes).inproc().finite(),
        ],
    }
}
