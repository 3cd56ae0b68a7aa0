//! An independent terminal emulator (ANSI and Atari VT52 flavours): the oracle
//! for everything that is observed on a terminal.
use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flavor {
    Ansi,
    Vt52,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cell {
    pub ch: char,
    pub comb: String,
    /// continuation half of a double-width character
    pub cont: bool,
    pub attr: Attr,
}
impl Cell {
    pub fn blank() -> Cell {
        Cell { ch: ' ', comb: String::new(), cont: false, attr: Attr::default() }
    }
}

#[derive(Clone, Debug)]
enum St {
    Ground,
    Esc,
    Csi(Vec<u8>),
    Osc(bool),
    Vt52Arg(u8, Vec<u8>),
}

pub struct Vt {
    pub flavor: Flavor,
    pub w: usize,
    pub h: usize,
    pub scrollback: Vec<Vec<Cell>>,
    pub screen: Vec<Vec<Cell>>,
    pub cx: usize,
    pub cy: usize,
    pub visible: bool,
    pub wrap: bool,
    pub attr: Attr,
    /// VT52: current palette indices
    pub fg52: u8,
    pub bg52: u8,
    pub inv52: bool,
    pending: bool,
    saved: Option<(usize, usize, Attr)>,
    st: St,
    utf: Vec<u8>,
    pub bells: usize,
    pub clears: usize,
    /// sequences we don't know, controls in unexpected places, overflows
    pub anomalies: Vec<String>,
    /// raw controls seen other than those expected
    pub unknown: Vec<String>,
    pub bytes: u64,
    pub seqs: u64,
    /// how often a character was printed over the right margin with wrap off
    pub overflow: usize,
    /// the characters shown, other than spaces, if wanted
    pub log: Option<String>,
}

fn conv_color(n: u32) -> Option<u8> {
    Some(n as u8)
}

impl Vt {
    pub fn new(flavor: Flavor, w: usize, h: usize) -> Vt {
        Vt {
            flavor,
            w,
            h,
            scrollback: vec![],
            screen: vec![vec![Cell::blank(); w]; h],
            cx: 0,
            cy: 0,
            visible: true,
            wrap: flavor == Flavor::Ansi,
            attr: Attr::default(),
            fg52: 15,
            bg52: 0,
            inv52: false,
            pending: false,
            saved: None,
            st: St::Ground,
            utf: vec![],
            bells: 0,
            clears: 0,
            anomalies: vec![],
            unknown: vec![],
            bytes: 0,
            seqs: 0,
            overflow: 0,
            log: None,
        }
    }
    /// Colors of a VT52-type terminal at the start.
    pub fn start52(&mut self, fg: u8, bg: u8) {
        self.fg52 = fg;
        self.bg52 = bg;
        let c = self.erase_cell();
        for r in self.screen.iter_mut() {
            r.fill(c.clone());
        }
    }
    pub fn abs_row(&self) -> usize {
        self.scrollback.len() + self.cy
    }
    pub fn total_rows(&self) -> usize {
        self.scrollback.len() + self.h
    }
    pub fn row(&self, r: usize) -> &Vec<Cell> {
        if r < self.scrollback.len() {
            &self.scrollback[r]
        } else {
            &self.screen[r - self.scrollback.len()]
        }
    }
    fn cur_attr(&self) -> Attr {
        match self.flavor {
            Flavor::Ansi => self.attr,
            // VT52: fg/bg carry the palette index; inverse swaps.
            Flavor::Vt52 => {
                let (f, b) = if self.inv52 {
                    (self.bg52, self.fg52)
                } else {
                    (self.fg52, self.bg52)
                };
                Attr { s: 0, fg: Some(f), bg: Some(b) }
            }
        }
    }
    fn erase_cell(&self) -> Cell {
        let mut c = Cell::blank();
        match self.flavor {
            Flavor::Ansi => c.attr.bg = self.attr.bg,
            Flavor::Vt52 => c.attr = self.cur_attr(),
        }
        c
    }
    fn linefeed(&mut self) {
        self.pending = false;
        if self.cy + 1 >= self.h {
            let mut r = vec![self.erase_cell(); self.w];
            std::mem::swap(&mut r, &mut self.screen[0]);
            self.screen.rotate_left(1);
            self.scrollback.push(r);
        } else {
            self.cy += 1;
        }
    }
    fn break_wide(&mut self, x: usize) {
        // overwriting one half of a wide character blanks the other half
        let y = self.cy;
        if x >= self.w {
            return;
        }
        if self.screen[y][x].cont && x > 0 {
            let a = self.screen[y][x - 1].attr;
            self.screen[y][x - 1] = Cell { attr: a, ..Cell::blank() };
        }
        if x + 1 < self.w && self.screen[y][x + 1].cont {
            let a = self.screen[y][x + 1].attr;
            self.screen[y][x + 1] = Cell { attr: a, ..Cell::blank() };
        }
    }
    fn put(&mut self, ch: char) {
        if let Some(l) = self.log.as_mut().filter(|_| ch != ' ') {
            l.push(ch);
        }
        let cw = if self.flavor == Flavor::Vt52 { 1 } else { cwidth(ch) };
        if cw == 0 {
            // attach to the previous cell
            let mut x = if self.pending { self.cx } else { self.cx.wrapping_sub(1) };
            if x < self.w && self.screen[self.cy][x].cont {
                x = x.wrapping_sub(1);
            }
            if x < self.w {
                self.screen[self.cy][x].comb.push(ch);
            } else {
                self.anomalies.push(format!("combining {:?} at column 0", ch));
            }
            return;
        }
        if self.pending {
            if self.wrap {
                self.cx = 0;
                self.linefeed();
            } else {
                self.overflow += 1;
            }
        }
        if self.cx + cw > self.w {
            self.overflow += 1;
            if self.wrap {
                self.cx = 0;
                self.linefeed();
            } else {
                self.cx = self.w.saturating_sub(cw);
            }
        }
        let (x, y) = (self.cx, self.cy);
        let attr = self.cur_attr();
        self.break_wide(x);
        if cw == 2 && x + 1 < self.w {
            self.break_wide(x + 1);
        }
        self.screen[y][x] = Cell { ch, comb: String::new(), cont: false, attr };
        if cw == 2 && x + 1 < self.w {
            self.screen[y][x + 1] =
                Cell { ch: ' ', comb: String::new(), cont: true, attr };
        }
        if x + cw >= self.w {
            self.cx = self.w - 1;
            self.pending = true;
        } else {
            self.cx = x + cw;
            self.pending = false;
        }
    }
    fn erase_range(&mut self, y: usize, a: usize, b: usize) {
        let c = self.erase_cell();
        for x in a..b.min(self.w) {
            self.screen[y][x] = c.clone();
        }
        // halves of wide characters at the edges
        if a > 0 && a < self.w && b > a {
            // a wide lead at a-1 whose continuation was erased
            let lead = self.screen[y][a - 1].clone();
            if !lead.cont && cwidth(lead.ch) == 2 {
                self.screen[y][a - 1] = Cell { attr: lead.attr, ..Cell::blank() };
            }
        }
    }
    pub fn feed(&mut self, data: &[u8]) {
        self.bytes += data.len() as u64;
        for &b in data {
            self.byte(b);
        }
    }
    fn byte(&mut self, b: u8) {
        let st = std::mem::replace(&mut self.st, St::Ground);
        match st {
            St::Ground => self.ground(b),
            St::Esc => {
                if self.flavor == Flavor::Vt52 {
                    self.esc52(b)
                } else {
                    self.esc(b)
                }
            }
            St::Csi(mut v) => {
                v.push(b);
                if (0x40..=0x7e).contains(&b) {
                    self.csi(&v);
                } else if b < 0x20 || v.len() > 64 {
                    self.unknown.push(format!("broken CSI {:?}", String::from_utf8_lossy(&v)));
                } else {
                    self.st = St::Csi(v);
                }
            }
            St::Osc(esc) => {
                if b == 7 || (esc && b == b'\\') {
                    self.unknown.push("OSC".into());
                } else {
                    self.st = St::Osc(b == 0x1b);
                }
            }
            St::Vt52Arg(c, mut v) => {
                v.push(b);
                match c {
                    b'Y' => {
                        if v.len() == 2 {
                            self.cy = (v[0].wrapping_sub(32) as usize).min(self.h - 1);
                            self.cx = (v[1].wrapping_sub(32) as usize).min(self.w - 1);
                            self.pending = false;
                        } else {
                            self.st = St::Vt52Arg(c, v);
                        }
                    }
                    b'b' => self.fg52 = v[0] & 15,
                    b'c' => self.bg52 = v[0] & 15,
                    _ => {}
                }
            }
        }
    }
    fn ground(&mut self, b: u8) {
        if !self.utf.is_empty() {
            if (0x80..0xC0).contains(&b) {
                self.utf.push(b);
                match std::str::from_utf8(&self.utf) {
                    Ok(s) => {
                        let ch = s.chars().next().unwrap();
                        self.utf.clear();
                        if (ch as u32) < 0xA0 {
                            self.anomalies.push(format!("C1 control {:04X} sent", ch as u32));
                        } else if ch == '\u{2028}' || ch == '\u{2029}' {
                            self.anomalies.push(format!("separator {:04X} sent", ch as u32));
                        } else {
                            self.put(ch)
                        }
                    }
                    Err(e) if e.error_len().is_none() => (),
                    Err(_) => {
                        self.anomalies.push("bad UTF-8 sent".into());
                        self.utf.clear();
                    }
                }
                return;
            }
            self.anomalies.push("truncated UTF-8 sent".into());
            self.utf.clear();
        }
        match b {
            0x1b => {
                self.seqs += 1;
                self.st = St::Esc
            }
            b'\r' => {
                self.cx = 0;
                self.pending = false;
            }
            b'\n' => self.linefeed(),
            7 => self.bells += 1,
            8 => {
                self.pending = false;
                self.cx = self.cx.saturating_sub(1);
            }
            9 => {
                self.anomalies.push("TAB sent".into());
                self.cx = ((self.cx / 8 + 1) * 8).min(self.w - 1);
            }
            0x20..=0x7e => self.put(b as char),
            0x7f if self.flavor == Flavor::Vt52 => self.put('\u{7f}'),
            0x80..=0xff => {
                if self.flavor == Flavor::Vt52 {
                    self.anomalies.push(format!("8-bit byte {:02X} sent to a VT52", b));
                } else if b >= 0xC2 && b < 0xF5 {
                    self.utf.push(b);
                } else {
                    self.anomalies.push(format!("bad UTF-8 byte {:02X} sent", b));
                }
            }
            _ => self.anomalies.push(format!("control {:02X} sent", b)),
        }
    }
    fn esc(&mut self, b: u8) {
        match b {
            b'[' => self.st = St::Csi(vec![]),
            b']' => self.st = St::Osc(false),
            b'7' => self.saved = Some((self.cx, self.cy, self.attr)),
            b'8' => self.restore(),
            b'c' => {
                let (w, h) = (self.w, self.h);
                self.erase_all();
                let _ = (w, h);
                self.attr = Attr::default();
                self.visible = true;
                self.wrap = true;
                self.cx = 0;
                self.cy = 0;
            }
            b'D' => self.linefeed(),
            b'E' => {
                self.cx = 0;
                self.linefeed()
            }
            b'M' => {
                if self.cy == 0 {
                    let r = vec![self.erase_cell(); self.w];
                    self.screen.pop();
                    self.screen.insert(0, r);
                } else {
                    self.cy -= 1;
                }
            }
            _ => self.unknown.push(format!("ESC {:?}", b as char)),
        }
    }
    fn restore(&mut self) {
        if let Some((x, y, a)) = self.saved {
            self.cx = x;
            self.cy = y;
            self.attr = a;
        } else {
            self.cx = 0;
            self.cy = 0;
        }
        self.pending = false;
    }
    fn erase_all(&mut self) {
        self.clears += 1;
        for y in 0..self.h {
            self.erase_range(y, 0, self.w);
        }
    }
    fn esc52(&mut self, b: u8) {
        match b {
            b'A' => {
                self.cy = self.cy.saturating_sub(1);
                self.pending = false
            }
            b'B' => {
                self.cy = (self.cy + 1).min(self.h - 1);
                self.pending = false
            }
            b'C' => {
                self.cx = (self.cx + 1).min(self.w - 1);
                self.pending = false
            }
            b'D' => {
                self.cx = self.cx.saturating_sub(1);
                self.pending = false
            }
            b'E' => {
                self.erase_all();
                self.cx = 0;
                self.cy = 0;
                self.pending = false;
            }
            b'H' => {
                self.cx = 0;
                self.cy = 0;
                self.pending = false;
            }
            b'J' => {
                if self.cx == 0 && self.cy == 0 {
                    self.clears += 1;
                }
                self.erase_range(self.cy, self.cx, self.w);
                for y in self.cy + 1..self.h {
                    self.erase_range(y, 0, self.w);
                }
            }
            b'K' => self.erase_range(self.cy, self.cx, self.w),
            b'l' => self.erase_range(self.cy, 0, self.w),
            b'o' => self.erase_range(self.cy, 0, self.cx + 1),
            b'e' => self.visible = true,
            b'f' => self.visible = false,
            b'v' => self.wrap = true,
            b'w' => self.wrap = false,
            b'p' => self.inv52 = true,
            b'q' => self.inv52 = false,
            b'j' => self.saved = Some((self.cx, self.cy, self.attr)),
            b'k' => self.restore(),
            b'Y' => self.st = St::Vt52Arg(b, vec![]),
            b'b' | b'c' => self.st = St::Vt52Arg(b, vec![]),
            _ => self.unknown.push(format!("VT52 ESC {:?}", b as char)),
        }
    }
    fn csi(&mut self, v: &[u8]) {
        let fin = v[v.len() - 1];
        let body = &v[..v.len() - 1];
        let text = String::from_utf8_lossy(body).to_string();
        let (private, nums) = if let Some(rest) = text.strip_prefix('?') {
            (true, rest.to_string())
        } else {
            (false, text.clone())
        };
        let mut ps: Vec<u32> = vec![];
        for p in nums.split(';') {
            if p.is_empty() {
                ps.push(0);
            } else if let Ok(x) = p.parse() {
                ps.push(x)
            } else {
                self.unknown.push(format!("CSI {}{}", text, fin as char));
                return;
            }
        }
        let n1 = ps[0].max(1) as usize;
        if private {
            let on = match fin {
                b'h' => true,
                b'l' => false,
                _ => {
                    self.unknown.push(format!("CSI {}{}", text, fin as char));
                    return;
                }
            };
            for p in ps {
                match p {
                    25 => self.visible = on,
                    7 => {
                        self.wrap = on;
                        if !on {
                            // xterm keeps the cursor on the last column
                        }
                    }
                    _ => self.unknown.push(format!("CSI ?{}{}", p, fin as char)),
                }
            }
            return;
        }
        match fin {
            b'A' => {
                self.cy = self.cy.saturating_sub(n1);
                self.pending = false
            }
            b'B' => {
                self.cy = (self.cy + n1).min(self.h - 1);
                self.pending = false
            }
            b'C' => {
                self.cx = (self.cx + n1).min(self.w - 1);
                self.pending = false
            }
            b'D' => {
                self.cx = self.cx.saturating_sub(n1);
                self.pending = false
            }
            b'E' => {
                self.cy = (self.cy + n1).min(self.h - 1);
                self.cx = 0;
                self.pending = false
            }
            b'F' => {
                self.cy = self.cy.saturating_sub(n1);
                self.cx = 0;
                self.pending = false
            }
            b'G' | b'`' => {
                self.cx = (n1 - 1).min(self.w - 1);
                self.pending = false
            }
            b'd' => {
                self.cy = (n1 - 1).min(self.h - 1);
                self.pending = false
            }
            b'H' | b'f' => {
                self.cy = (n1 - 1).min(self.h - 1);
                self.cx = (ps.get(1).copied().unwrap_or(1).max(1) as usize - 1).min(self.w - 1);
                self.pending = false;
            }
            b'J' => {
                self.pending = false;
                match ps[0] {
                    0 => {
                        self.erase_range(self.cy, self.cx, self.w);
                        for y in self.cy + 1..self.h {
                            self.erase_range(y, 0, self.w);
                        }
                    }
                    1 => {
                        for y in 0..self.cy {
                            self.erase_range(y, 0, self.w);
                        }
                        self.erase_range(self.cy, 0, self.cx + 1);
                    }
                    2 => self.erase_all(),
                    3 => {
                        self.anomalies.push("scrollback erased".into());
                        self.scrollback.clear();
                    }
                    _ => self.unknown.push(format!("CSI {}J", text)),
                }
            }
            b'K' => {
                self.pending = false;
                match ps[0] {
                    0 => self.erase_range(self.cy, self.cx, self.w),
                    1 => self.erase_range(self.cy, 0, self.cx + 1),
                    2 => self.erase_range(self.cy, 0, self.w),
                    _ => self.unknown.push(format!("CSI {}K", text)),
                }
            }
            b'X' => self.erase_range(self.cy, self.cx, self.cx + n1),
            b'P' => {
                let c = self.erase_cell();
                let y = self.cy;
                for _ in 0..n1.min(self.w - self.cx) {
                    self.screen[y].remove(self.cx);
                    self.screen[y].push(c.clone());
                }
            }
            b'@' => {
                let c = self.erase_cell();
                let y = self.cy;
                for _ in 0..n1.min(self.w - self.cx) {
                    self.screen[y].insert(self.cx, c.clone());
                    self.screen[y].pop();
                }
            }
            b'L' => {
                for _ in 0..n1.min(self.h - self.cy) {
                    let r = vec![self.erase_cell(); self.w];
                    self.screen.insert(self.cy, r);
                    self.screen.pop();
                }
            }
            b'M' => {
                for _ in 0..n1.min(self.h - self.cy) {
                    let r = vec![self.erase_cell(); self.w];
                    self.screen.remove(self.cy);
                    self.screen.push(r);
                }
            }
            b's' => self.saved = Some((self.cx, self.cy, self.attr)),
            b'u' => self.restore(),
            b'm' => self.sgr(&ps),
            _ => self.unknown.push(format!("CSI {}{}", text, fin as char)),
        }
    }
    fn sgr(&mut self, ps: &[u32]) {
        let mut i = 0;
        while i < ps.len() {
            let p = ps[i];
            match p {
                0 => self.attr = Attr::default(),
                1 => self.attr.s |= BOLD,
                2 => self.attr.s |= DIM,
                3 => self.attr.s |= ITALIC,
                4 => self.attr.s |= UNDERLINE,
                7 => self.attr.s |= INVERSE,
                22 => self.attr.s &= !(BOLD | DIM),
                23 => self.attr.s &= !ITALIC,
                24 => self.attr.s &= !UNDERLINE,
                27 => self.attr.s &= !INVERSE,
                30..=37 => self.attr.fg = conv_color(p - 30),
                39 => self.attr.fg = None,
                40..=47 => self.attr.bg = conv_color(p - 40),
                49 => self.attr.bg = None,
                90..=97 => self.attr.fg = conv_color(p - 90 + 8),
                100..=107 => self.attr.bg = conv_color(p - 100 + 8),
                38 | 48 => {
                    if ps.get(i + 1) == Some(&5) && i + 2 < ps.len() {
                        let c = conv_color(ps[i + 2]);
                        if p == 38 {
                            self.attr.fg = c
                        } else {
                            self.attr.bg = c
                        }
                        i += 2;
                    } else {
                        self.unknown.push(format!("SGR {:?}", ps));
                        return;
                    }
                }
                _ => self.unknown.push(format!("SGR {}", p)),
            }
            i += 1;
        }
    }
    pub fn in_ground(&self) -> bool {
        matches!(self.st, St::Ground) && self.utf.is_empty()
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        for r in 0..self.total_rows() {
            let row = self.row(r);
            let t: String = row_text(row);
            let mark = if r == self.abs_row() { format!(" <cursor {}>", self.cx) } else { String::new() };
            let sb = if r < self.scrollback.len() { '-' } else { '|' };
            s.push_str(&format!("{:3}{}{}|{}\n", r, sb, t, mark));
        }
        s
    }
}

pub fn row_text(row: &[Cell]) -> String {
    row.iter()
        .filter(|c| !c.cont)
        .map(|c| {
            let mut s = String::new();
            s.push(if c.ch == '\u{7f}' { '\u{2206}' } else { c.ch });
            s.push_str(&c.comb);
            s
        })
        .collect()
}
