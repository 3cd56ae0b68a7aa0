//! Generators.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct TextCfg {
    pub wide: bool,
    pub zw: bool,
    pub ctl: bool,
    pub nl: bool,
    pub ascii: bool,
}
impl TextCfg {
    pub const SIMPLE: TextCfg = TextCfg { wide: false, zw: false, ctl: false, nl: false, ascii: false };
    pub const RICH: TextCfg = TextCfg { wide: true, zw: false, ctl: true, nl: true, ascii: false };
}

pub fn gchar(r: &mut Rng, c: TextCfg, first: bool) -> char {
    loop {
        match r.weighted(&[60, 14, 12, 6, 5, 4]) {
            0 if c.ascii => return *r.pick(W1A),
            0 => return *r.pick(W1),
            1 => return ' ',
            2 if c.wide => return *r.pick(W2),
            3 if c.zw && !first => return *r.pick(W0),
            4 if c.ctl => {
                return *r.pick(&[
                    '\u{0}', '\u{1}', '\u{7}', '\u{8}', '\t', '\u{b}', '\r', '\u{1b}', '\u{1f}',
                    '\u{7f}', '\u{80}', '\u{85}', '\u{9b}', '\u{9f}', '\u{2028}', '\u{2029}',
                ])
            }
            5 if c.nl => return '\n',
            _ => {}
        }
    }
}
pub fn gtext(r: &mut Rng, n: usize, c: TextCfg) -> String {
    let mut s = String::new();
    for i in 0..n {
        let first = i == 0 || s.ends_with('\n');
        s.push(gchar(r, c, first));
    }
    s
}
pub fn gattr(r: &mut Rng) -> Attr {
    if r.chance(1, 3) {
        return Attr::default();
    }
    let s = if r.chance(1, 3) { 0 } else { (1u8 << r.below(5)) | if r.chance(1, 3) { 1 << r.below(5) } else { 0 } };
    let col = |r: &mut Rng| if r.chance(1, 2) { None } else { Some(r.below(8) as u8) };
    let fg = col(r);
    let bg = if r.chance(1, 2) { None } else { col(r) };
    Attr { s, fg, bg }
}
/// A line with several styled segments; `max` characters at most.
pub fn gline(r: &mut Rng, max: usize, c: TextCfg, styled: bool) -> ML {
    let n = match r.below(8) {
        0 => 1,
        1 => max,
        _ => r.range(1, max.max(1)),
    };
    let mut left = n;
    let mut v = vec![];
    let mut prev_nl = true;
    while left > 0 {
        let k = if styled { r.range(1, left.min(8)) } else { left };
        let mut t = String::new();
        for _ in 0..k {
            let ch = gchar(r, c, prev_nl);
            prev_nl = ch == '\n';
            t.push(ch);
        }
        let a = if styled { gattr(r) } else { Attr::default() };
        v.push(Seg { t, a });
        left -= k;
    }
    if styled && r.chance(1, 4) {
        // (ends on a change of style, as in `"> ", reset`)
        let a = if r.chance(1, 2) { Attr::default() } else { gattr(r) };
        v.push(Seg { t: String::new(), a });
    }
    ML { v }
}
/// Change a line a little, so that diffs have something to work with.
pub fn mutate(r: &mut Rng, l: &ML, c: TextCfg) -> ML {
    let mut l = l.clone();
    for _ in 0..r.range(1, 3) {
        if l.v.is_empty() {
            l.v.push(Seg { t: gtext(r, 3, c), a: gattr(r) });
            continue;
        }
        let i = r.below(l.v.len());
        match r.below(7) {
            0 => l.v[i].a = gattr(r),
            1 => {
                let n = r.range(1, 4);
                let t = gtext(r, n, c);
                l.v.insert(i, Seg { t, a: gattr(r) });
            }
            2 => {
                l.v.remove(i);
            }
            3 => {
                let mut t: Vec<char> = l.v[i].t.chars().collect();
                if !t.is_empty() {
                    let k = r.below(t.len());
                    t[k] = gchar(r, c, true);
                    l.v[i].t = t.into_iter().collect();
                }
            }
            4 => {
                let mut t: Vec<char> = l.v[i].t.chars().collect();
                let k = r.below(t.len() + 1);
                t.insert(k, gchar(r, c, true));
                l.v[i].t = t.into_iter().collect();
            }
            5 => {
                let mut t: Vec<char> = l.v[i].t.chars().collect();
                if t.len() > 1 {
                    let k = r.below(t.len());
                    t.remove(k);
                    l.v[i].t = t.into_iter().collect();
                }
            }
            _ => {
                let n = r.range(1, 5);
                let t = gtext(r, n, c);
                l.v.push(Seg { t, a: gattr(r) });
            }
        }
    }
    l.v.retain(|s| !s.t.is_empty());
    l
}

/// Sequences of keys with a bias towards editing. `resp`: include keys that
/// cause responses; `hist`: history keys.
pub struct KeyCfg {
    pub wide: bool,
    pub zw: bool,
    pub resp: bool,
    pub hist: bool,
    pub ret: bool,
    pub tab: bool,
    pub clear: bool,
    pub ascii: bool,
}
impl KeyCfg {
    pub const EDIT: KeyCfg = KeyCfg {
        wide: true,
        zw: false,
        resp: false,
        hist: false,
        ret: false,
        tab: false,
        clear: false,
        ascii: false,
    };
}
pub fn gkey(r: &mut Rng, c: &KeyCfg) -> Key {
    loop {
        match r.weighted(&[50, 10, 26, 8, 6, 4, 3, 2, 1]) {
            0 => {
                let t = TextCfg { wide: c.wide, zw: c.zw, ctl: false, nl: false, ascii: c.ascii };
                return Key::Ch(gchar(r, t, false));
            }
            1 => return Key::Ch(' '),
            2 => {
                let k = [
                    Key::Left,
                    Key::Right,
                    Key::Left,
                    Key::Home,
                    Key::End,
                    Key::Del,
                    Key::Ctl(1),
                    Key::Ctl(2),
                    Key::Ctl(5),
                    Key::Ctl(6),
                    Key::Ctl(8),
                    Key::Ctl(127),
                    Key::Ctl(11),
                    Key::Ctl(21),
                    Key::Ctl(23),
                    Key::Ctl(25),
                    Key::Ctl(23),
                    Key::Ctl(25),
                ];
                return *r.pick(&k);
            }
            3 if c.hist => return *r.pick(&[Key::Up, Key::Down, Key::Up, Key::Ctl(16), Key::Ctl(14)]),
            4 if c.resp => {
                return *r.pick(&[
                    Key::Ctl(3),
                    Key::Ctl(20),
                    Key::Ctl(24),
                    Key::Ctl(28),
                    Key::Ctl(0),
                    Key::Ctl(15),
                    Key::Ctl(17),
                    Key::Ctl(18),
                    Key::Ctl(19),
                    Key::Ctl(22),
                    Key::Ctl(29),
                    Key::Ctl(30),
                    Key::Ctl(31),
                    Key::Ctl(7),
                    Key::Ctl(4),
                ])
            }
            5 if c.ret => return *r.pick(&[Key::Ctl(10), Key::Ctl(13)]),
            6 if c.tab => return Key::Ctl(9),
            7 if c.clear => return Key::Ctl(12),
            8 if c.resp => return *r.pick(&[Key::Ctl(7), Key::Ctl(4)]),
            _ => {}
        }
    }
}
pub fn gkeys(r: &mut Rng, n: usize, c: &KeyCfg) -> Vec<Key> {
    (0..n).map(|_| gkey(r, c)).collect()
}
