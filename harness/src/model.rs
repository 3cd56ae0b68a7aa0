//! Reference models: styled text, screen layout, line editor.
use serde::{Deserialize, Serialize};

pub const BOLD: u8 = 1;
pub const DIM: u8 = 2;
pub const UNDERLINE: u8 = 4;
pub const INVERSE: u8 = 8;
pub const ITALIC: u8 = 16;

/// Style bits and ANSI color numbers.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Attr {
    pub s: u8,
    pub fg: Option<u8>,
    pub bg: Option<u8>,
}
impl Attr {
    pub fn fills(&self) -> bool {
        self.s & (INVERSE | UNDERLINE) != 0 || self.bg.is_some()
    }
    /// What can be seen of these attributes on a space.
    pub fn on_space(mut self) -> Attr {
        self.s &= INVERSE | UNDERLINE;
        if self.s == 0 {
            self.fg = None;
        }
        self
    }
}

pub fn to_style(s: u8) -> liso::Style {
    let mut r = liso::Style::PLAIN;
    if s & BOLD != 0 {
        r |= liso::Style::BOLD
    }
    if s & DIM != 0 {
        r |= liso::Style::DIM
    }
    if s & UNDERLINE != 0 {
        r |= liso::Style::UNDERLINE
    }
    if s & INVERSE != 0 {
        r |= liso::Style::INVERSE
    }
    if s & ITALIC != 0 {
        r |= liso::Style::ITALIC
    }
    r
}
pub fn from_style(s: liso::Style) -> u8 {
    let mut r = 0;
    if s.contains(liso::Style::BOLD) {
        r |= BOLD
    }
    if s.contains(liso::Style::DIM) {
        r |= DIM
    }
    if s.contains(liso::Style::UNDERLINE) {
        r |= UNDERLINE
    }
    if s.contains(liso::Style::INVERSE) {
        r |= INVERSE
    }
    if s.contains(liso::Style::ITALIC) {
        r |= ITALIC
    }
    r
}
pub fn to_color(c: Option<u8>) -> Option<liso::Color> {
    use liso::Color::*;
    c.map(|c| match c {
        0 => Black,
        1 => Red,
        2 => Green,
        3 => Yellow,
        4 => Blue,
        5 => Magenta,
        6 => Cyan,
        _ => White,
    })
}
pub fn from_color(c: Option<liso::Color>) -> Option<u8> {
    use liso::Color::*;
    c.map(|c| match c {
        Black => 0,
        Red => 1,
        Green => 2,
        Yellow => 3,
        Blue => 4,
        Magenta => 5,
        Cyan => 6,
        White => 7,
    })
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Seg {
    pub t: String,
    pub a: Attr,
}
/// A styled line as a list of segments.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct ML {
    pub v: Vec<Seg>,
}
impl ML {
    pub fn plain<S: Into<String>>(s: S) -> ML {
        ML { v: vec![Seg { t: s.into(), a: Attr::default() }] }
    }
    pub fn styled<S: Into<String>>(s: S, a: Attr) -> ML {
        ML { v: vec![Seg { t: s.into(), a }] }
    }
    pub fn text(&self) -> String {
        self.v.iter().map(|s| s.t.as_str()).collect()
    }
    pub fn to_line(&self) -> liso::Line {
        let mut l = liso::Line::new();
        for s in &self.v {
            l.set_style(to_style(s.a.s));
            l.set_colors(to_color(s.a.fg), to_color(s.a.bg));
            l.add_text(s.t.as_str());
        }
        l
    }
    pub fn last_attr(&self) -> Attr {
        self.v.last().map(|s| s.a).unwrap_or_default()
    }
    pub fn chars(&self) -> Vec<(char, Attr)> {
        let mut out = vec![];
        for s in &self.v {
            expand(&s.t, s.a, &mut out);
        }
        out
    }
    pub fn is_empty(&self) -> bool {
        self.v.iter().all(|s| s.t.is_empty())
    }
}

pub fn is_control(c: char) -> bool {
    let n = c as u32;
    n < 0x20 || (0x7f..0xa0).contains(&n)
}

/// Expand control characters to visible inverse placeholders.
pub fn expand(t: &str, a: Attr, out: &mut Vec<(char, Attr)>) {
    for c in t.chars() {
        if (is_control(c) && c != '\n') || c == '\u{2028}' || c == '\u{2029}' {
            let mut ia = a;
            ia.s ^= INVERSE;
            let s = if (c as u32) < 32 {
                format!("^{}", (64 + c as u8) as char)
            } else {
                format!("U+{:04X}", c as u32)
            };
            for x in s.chars() {
                out.push((x, ia));
            }
        } else {
            out.push((c, a));
        }
    }
}

/// Independent width table, exact for the characters the generators use.
pub fn cwidth(c: char) -> usize {
    let n = c as u32;
    match n {
        0x0300..=0x036F | 0x200B..=0x200F | 0x20D0..=0x20F0 | 0xFE00..=0xFE0F => 0,
        0x1100..=0x115F
        | 0x2E80..=0x303E
        | 0x3041..=0xA4CF
        | 0xAC00..=0xD7A3
        | 0xF900..=0xFAFF
        | 0xFE30..=0xFE6F
        | 0xFF00..=0xFF60
        | 0xFFE0..=0xFFE6
        | 0x1F300..=0x1F64F
        | 0x1F680..=0x1F6C5
        | 0x1F910..=0x1F93A
        | 0x20000..=0x3FFFD => 2,
        _ => 1,
    }
}
pub fn swidth(s: &str) -> usize {
    s.chars().map(cwidth).sum()
}

pub const W1: &[char] = &[
    'a', 'b', 'c', 'd', 'e', 'x', 'y', 'z', 'A', 'Q', 'Z', '0', '7', '9', '.', ',', '-', '/', '!',
    '"', '%', '~', 'é', 'ß', 'ñ', 'ж', 'Ω', 'λ', '×', 'ł',
];
pub const W1A: &[char] = &['a', 'b', 'c', 'd', 'e', 'x', 'y', 'z', 'A', 'Q', 'Z', '0', '7', '9', '.', ',', '-', '/'];
pub const W2: &[char] = &['日', '本', '語', '한', '字', '。', 'Ｗ', '😀', '🚀', '𠀋'];
pub const W0: &[char] = &['\u{301}', '\u{308}', '\u{327}', '\u{20D7}', '\u{200B}', '\u{200D}', '\u{FE0F}'];

#[derive(Clone, Debug, PartialEq)]
pub struct LCell {
    pub ch: char,
    pub comb: String,
    pub cont: bool,
    /// None: any attributes
    pub attr: Option<Attr>,
}
fn lc(ch: char, attr: Attr) -> LCell {
    LCell { ch, comb: String::new(), cont: false, attr: Some(attr) }
}
pub type LRow = Vec<LCell>;

fn fill(row: &mut LRow, w: usize, a: Attr) {
    let a = if a.fills() { a } else { Attr::default() };
    while row.len() < w {
        row.push(lc(' ', a));
    }
}
fn pad_any(row: &mut LRow, w: usize) {
    while row.len() < w {
        row.push(LCell { ch: ' ', comb: String::new(), cont: false, attr: None });
    }
}
fn push_char(row: &mut LRow, c: char, a: Attr) {
    let cw = cwidth(c);
    if cw == 0 {
        if let Some(l) = row.iter_mut().rev().find(|x| !x.cont) {
            l.comb.push(c)
        }
        return;
    }
    row.push(lc(c, a));
    if cw == 2 {
        row.push(LCell { ch: ' ', comb: String::new(), cont: true, attr: Some(a) });
    }
}

/// The rows a printed line occupies.
pub fn layout_printed(chars: &[(char, Attr)], last: Attr, w: usize) -> Vec<LRow> {
    let mut rows = vec![];
    let mut row: LRow = vec![];
    for &(c, a) in chars {
        if c == '\n' {
            fill(&mut row, w, a);
            rows.push(std::mem::take(&mut row));
            continue;
        }
        if row.len() + cwidth(c) > w {
            pad_any(&mut row, w);
            rows.push(std::mem::take(&mut row));
        }
        push_char(&mut row, c, a);
    }
    fill(&mut row, w, last);
    rows.push(row);
    rows
}

/// The rows of the live area, and where (row, column) the character with index
/// `cursor` is (or would be).
pub fn layout_live(
    chars: &[(char, Attr)],
    last: Attr,
    w: usize,
    cursor: Option<usize>,
) -> (Vec<LRow>, Option<(usize, usize)>) {
    let mut rows = vec![];
    let mut row: LRow = vec![];
    let mut implied = false;
    let mut cpos = None;
    for (i, &(c, a)) in chars.iter().enumerate() {
        if c == '\n' {
            if cursor == Some(i) {
                cpos = Some((rows.len(), row.len()));
            }
            if implied {
                implied = false;
                continue;
            }
            fill(&mut row, w, a);
            rows.push(std::mem::take(&mut row));
            continue;
        }
        if row.len() + cwidth(c) > w {
            pad_any(&mut row, w);
            rows.push(std::mem::take(&mut row));
        }
        if cursor == Some(i) {
            cpos = Some((rows.len(), row.len()));
        }
        push_char(&mut row, c, a);
        implied = false;
        if row.len() >= w {
            rows.push(std::mem::take(&mut row));
            implied = true;
        }
    }
    if cursor == Some(chars.len()) {
        cpos = Some((rows.len(), row.len()));
    }
    fill(&mut row, w, last);
    rows.push(row);
    (rows, cpos)
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Resp {
    Input(String),
    Dead,
    Quit,
    Discarded(String),
    Finish,
    Info,
    Break,
    Escape,
    Swap,
    Custom(u64),
    BadCustom,
    Unknown(u8),
    Other(String),
}
impl Resp {
    /// control code that documentation assigns to this response
    pub fn code(&self) -> Option<u8> {
        Some(match self {
            Resp::Input(_) => 10,
            Resp::Quit => 3,
            Resp::Discarded(_) => 7,
            Resp::Finish => 4,
            Resp::Info => 20,
            Resp::Break => 28,
            Resp::Escape => 27,
            Resp::Swap => 24,
            Resp::Unknown(x) => *x,
            Resp::Custom(_) | Resp::BadCustom | Resp::Dead | Resp::Other(_) => return None,
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Key {
    /// A printable (or zero-width) character
    Ch(char),
    /// A control character 0..=31 or 127
    Ctl(u8),
    Up,
    Down,
    Left,
    Right,
    Home,
    End,
    Del,
}
impl Key {
    pub fn bytes(&self, out: &mut Vec<u8>) {
        match self {
            Key::Ch(c) => {
                let mut b = [0; 4];
                out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
            Key::Ctl(b) => out.push(*b),
            Key::Up => out.extend_from_slice(b"\x1b[A"),
            Key::Down => out.extend_from_slice(b"\x1b[B"),
            Key::Right => out.extend_from_slice(b"\x1b[C"),
            Key::Left => out.extend_from_slice(b"\x1b[D"),
            Key::Del => out.extend_from_slice(b"\x1b[3~"),
            Key::Home => out.extend_from_slice(b"\x1b[H"),
            Key::End => out.extend_from_slice(b"\x1b[F"),
        }
    }
}

/// What the completor of the model answers.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CompAns {
    None,
    Insert(String),
    Replace(String, usize),
    /// the same line, with the cursor before this character (modulo length)
    Move(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Effect {
    Resp(Resp),
    Bell,
    Clear,
    Suspend,
    Tab,
}

/// Reference model of the line editor.
#[derive(Clone, Debug)]
pub struct Editor {
    pub buf: Vec<char>,
    pub cur: usize,
    pub clip: Vec<char>,
    pub allowed: bool,
    pub hist: Vec<String>,
    pub hist_limit: Option<usize>,
    pub hist_strip: bool,
    pub hidx: Option<usize>,
    pub horig: Option<String>,
    pub orphan: Option<Vec<char>>,
    pub tabs: u32,
}
fn zw(c: char) -> bool {
    cwidth(c) == 0
}
impl Editor {
    pub fn new() -> Editor {
        Editor {
            buf: vec![],
            cur: 0,
            clip: vec![],
            allowed: true,
            hist: vec![],
            hist_limit: Some(100),
            hist_strip: true,
            hidx: None,
            horig: None,
            orphan: None,
            tabs: 0,
        }
    }
    pub fn text(&self) -> String {
        self.buf.iter().collect()
    }
    pub fn cur_bytes(&self) -> usize {
        self.buf[..self.cur].iter().map(|c| c.len_utf8()).sum()
    }
    fn prev_boundary(&self, mut i: usize) -> usize {
        i -= 1;
        while i > 0 && zw(self.buf[i]) {
            i -= 1;
        }
        i
    }
    fn next_boundary(&self, mut i: usize) -> usize {
        i += 1;
        while i < self.buf.len() && zw(self.buf[i]) {
            i += 1;
        }
        i
    }
    pub fn hist_reset(&mut self) {
        self.hidx = None;
        self.horig = None;
        self.orphan = None;
    }
    pub fn clear(&mut self) {
        self.buf.clear();
        self.cur = 0;
        self.hist_reset();
    }
    pub fn hist_add(&mut self, line: String) {
        if self.hist_strip {
            self.hist.retain(|x| *x != line);
        }
        self.hist.push(line);
        if let Some(l) = self.hist_limit {
            while self.hist.len() > l {
                self.hist.remove(0);
            }
        }
    }
    fn set_line(&mut self, s: &str) {
        self.buf = s.chars().collect();
        self.cur = self.buf.len();
    }
    fn hist_prev(&mut self, fx: &mut Vec<Effect>) {
        let target = match self.hidx {
            None if !self.hist.is_empty() => Some(self.hist.len() - 1),
            Some(x) if x > 0 => Some(x - 1),
            _ => None,
        };
        match target {
            None => fx.push(Effect::Bell),
            Some(t) => {
                if self.orphan.is_none() {
                    self.orphan = Some(self.buf.clone());
                }
                let l = self.hist[t].clone();
                self.set_line(&l);
                self.hidx = Some(t);
                self.horig = Some(l);
            }
        }
    }
    fn hist_next(&mut self, fx: &mut Vec<Effect>) {
        match self.hidx {
            None => fx.push(Effect::Bell),
            Some(x) if x + 1 >= self.hist.len() => {
                self.buf = self.orphan.take().unwrap_or_default();
                self.cur = self.buf.len();
                self.hidx = None;
                self.horig = None;
            }
            Some(x) => {
                let l = self.hist[x + 1].clone();
                self.set_line(&l);
                self.hidx = Some(x + 1);
                self.horig = Some(l);
            }
        }
    }
    /// The history was replaced by `new` (and this has been noticed).
    pub fn hist_replaced(&mut self, new: Vec<String>) {
        self.hist = new;
        if self.hidx.is_some() {
            let o = self.horig.clone();
            self.hidx = self.hist.iter().rposition(|x| Some(x) == o.as_ref());
            if self.hidx.is_none() {
                self.hist_reset();
            }
        }
    }
    fn left(&mut self) {
        if self.cur > 0 {
            self.cur = self.prev_boundary(self.cur);
        }
    }
    fn right(&mut self) {
        if self.cur < self.buf.len() {
            self.cur = self.next_boundary(self.cur);
        }
    }
    pub fn insert(&mut self, s: &[char]) {
        let c = self.cur;
        self.buf.splice(c..c, s.iter().copied());
        self.cur += s.len();
    }
    fn finish_line(&mut self, fx: &mut Vec<Effect>) {
        let t = self.text();
        self.clear();
        self.hist_add(t.clone());
        fx.push(Effect::Resp(Resp::Input(t)));
    }
    /// Process a key; returns what it causes besides changing the line.
    pub fn key(&mut self, k: Key) -> Vec<Effect> {
        let mut fx = vec![];
        if !self.allowed {
            return fx;
        }
        if k == Key::Ctl(9) {
            self.tabs = self.tabs.saturating_add(1);
        } else {
            self.tabs = 0;
        }
        match k {
            Key::Ch(c) => self.insert(&[c]),
            Key::Left | Key::Ctl(2) => self.left(),
            Key::Right | Key::Ctl(6) => self.right(),
            Key::Home | Key::Ctl(1) => self.cur = 0,
            Key::End | Key::Ctl(5) => self.cur = self.buf.len(),
            Key::Up | Key::Ctl(16) => self.hist_prev(&mut fx),
            Key::Down | Key::Ctl(14) => self.hist_next(&mut fx),
            Key::Del => {
                if self.cur < self.buf.len() {
                    let e = self.next_boundary(self.cur);
                    self.buf.drain(self.cur..e);
                }
            }
            Key::Ctl(8) | Key::Ctl(127) => {
                if self.cur > 0 {
                    let s = self.prev_boundary(self.cur);
                    self.buf.drain(s..self.cur);
                    self.cur = s;
                }
            }
            Key::Ctl(3) => fx.push(Effect::Resp(Resp::Quit)),
            Key::Ctl(4) => {
                if self.buf.is_empty() {
                    fx.push(Effect::Resp(Resp::Finish))
                } else {
                    self.clear()
                }
            }
            Key::Ctl(7) => {
                let t = self.text();
                self.clear();
                fx.push(Effect::Resp(Resp::Discarded(t)));
            }
            Key::Ctl(9) => fx.push(Effect::Tab),
            Key::Ctl(10) | Key::Ctl(13) => self.finish_line(&mut fx),
            Key::Ctl(11) => {
                if self.cur < self.buf.len() {
                    self.clip = self.buf.split_off(self.cur);
                }
            }
            Key::Ctl(12) => fx.push(Effect::Clear),
            Key::Ctl(20) => fx.push(Effect::Resp(Resp::Info)),
            Key::Ctl(21) => {
                if self.cur > 0 {
                    self.clip = self.buf.drain(..self.cur).collect();
                    self.cur = 0;
                }
            }
            Key::Ctl(23) => {
                let end = self.cur;
                let mut p = self.cur;
                // spaces before the cursor, then the word before them
                while p > 0 && self.buf[self.prev_boundary(p)].is_whitespace() {
                    p = self.prev_boundary(p);
                }
                while p > 0 && !self.buf[self.prev_boundary(p)].is_whitespace() {
                    p = self.prev_boundary(p);
                }
                self.buf.drain(p..end);
                self.cur = p;
            }
            Key::Ctl(24) => fx.push(Effect::Resp(Resp::Swap)),
            Key::Ctl(25) => {
                let c = self.clip.clone();
                self.insert(&c);
            }
            Key::Ctl(26) => fx.push(Effect::Suspend),
            Key::Ctl(27) => fx.push(Effect::Resp(Resp::Escape)),
            Key::Ctl(28) => fx.push(Effect::Resp(Resp::Break)),
            Key::Ctl(n) => fx.push(Effect::Resp(Resp::Unknown(n))),
        }
        fx
    }
}

/// Everything that determines what the terminal shows.
#[derive(Clone, Debug)]
pub struct Ui {
    pub w: usize,
    pub h: usize,
    /// rows above the live area
    pub rows: Vec<LRow>,
    pub status: Option<ML>,
    pub prompt: ML,
    pub notice: Option<ML>,
    pub ed: Editor,
    /// something has been in the live area already (before that, whether the
    /// cursor is visible is left open)
    pub engaged: bool,
    /// don't care where the cursor is
    pub any_cursor: bool,
}
impl Ui {
    pub fn new(w: usize, h: usize) -> Ui {
        Ui {
            w,
            h,
            rows: vec![],
            status: None,
            prompt: ML::default(),
            notice: None,
            ed: Editor::new(),
            engaged: false,
            any_cursor: false,
        }
    }
    pub fn note_engaged(&mut self) {
        self.engaged |= self.status.is_some()
            || self.notice.is_some()
            || !self.prompt.is_empty()
            || !self.ed.buf.is_empty();
    }
    pub fn print(&mut self, l: &ML) {
        let r = layout_printed(&l.chars(), l.last_attr(), self.w);
        self.rows.extend(r);
    }
    /// The live area: rows and cursor position within them (if it matters).
    pub fn live(&self) -> (Vec<LRow>, Option<(usize, usize)>) {
        let mut chars = vec![];
        if let Some(s) = &self.status {
            chars = s.chars();
            chars.push(('\n', s.last_attr()));
        }
        if let Some(n) = &self.notice {
            chars.extend(n.chars());
            let last = if n.v.is_empty() { Attr::default() } else { n.last_attr() };
            return layout_live(&chars, last, self.w, None);
        }
        let (pc, pa) = (self.prompt.chars(), self.prompt.last_attr());
        chars.extend(pc);
        // position of the cursor in expanded characters
        let mut inp = vec![];
        let mut cpos = None;
        for (i, c) in self.ed.buf.iter().enumerate() {
            if i == self.ed.cur {
                cpos = Some(inp.len());
            }
            expand(&c.to_string(), pa, &mut inp);
        }
        let cpos = chars.len() + cpos.unwrap_or(inp.len());
        chars.extend(inp);
        layout_live(&chars, pa, self.w, Some(cpos))
    }
    pub fn cursor_visible(&self) -> bool {
        self.ed.allowed && self.notice.is_none()
    }
}
