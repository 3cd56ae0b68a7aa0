//! C04 line editing, C05 responses, C06 input decoding, C07 history browsing,
//! C20 completion.
use super::*;

const PROBE: u32 = 7;

/// A session whose completor reveals the line being edited.
fn probed(c: &mut Ctx, w: usize, h: usize) -> R<Drv> {
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(w, h)))?;
    d.cmd(Cmd::SetCompletor(PROBE, vec![]))?;
    d.s.sync()?;
    Ok(d)
}
fn check_all(d: &mut Drv) -> R<()> {
    d.s.sync()?;
    d.check_calls()?;
    d.check_resps()
}

// ------------------------------------------------------------------- C04

/// Text to cut pieces from, so that words, spaces and combining characters
/// meet each other often.
fn gword(r: &mut Rng, zw: bool) -> Vec<Key> {
    let n = r.range(1, 7);
    let t = gtext(r, n, TextCfg { wide: true, zw, ctl: false, nl: false, ascii: false });
    let mut v: Vec<Key> = t.chars().map(Key::Ch).collect();
    for _ in 0..r.below(3) {
        v.push(Key::Ch(*r.pick(&[' ', ' ', ' ', '\u{3000}', '\u{a0}', '\u{2003}'])));
    }
    if zw && r.chance(1, 6) {
        v.push(Key::Ch(*r.pick(W0)));
    }
    v
}
fn s_keys(c: &mut Ctx) -> R<()> {
    edit_walk(c, true, 120, 40, false)
}
fn s_screen(c: &mut Ctx) -> R<()> {
    edit_walk(c, false, 40, 24, true)
}
fn edit_walk(c: &mut Ctx, zw: bool, w: usize, h: usize, screen: bool) -> R<()> {
    let mut d = probed(c, w, h)?;
    if screen {
        let m = gline(&mut c.rng, 12, TextCfg::SIMPLE, true);
        d.cmd(Cmd::Prompt(m, true, false))?;
        d.s.sync()?;
    }
    let kc = KeyCfg { wide: true, zw, ret: true, tab: true, ..KeyCfg::EDIT };
    let steps = if screen { 25 } else { 40 };
    for _ in 0..steps {
        let mut ks = vec![];
        match c.rng.below(5) {
            0 => {
                for _ in 0..c.rng.range(1, 3) {
                    ks.extend(gword(&mut c.rng, zw));
                }
            }
            1 => {
                let n = c.rng.range(1, 12);
                let k = *c.rng.pick(&[
                    Key::Left, Key::Right, Key::Ctl(2), Key::Ctl(6), Key::Ctl(8), Key::Ctl(127), Key::Del,
                    Key::Ctl(23), Key::Ctl(25),
                ]);
                let n = if k == Key::Ctl(25) { n.min(2) } else { n };
                for _ in 0..n {
                    ks.push(k);
                }
            }
            2 => {
                // every position gets its turn
                ks.push(*c.rng.pick(&[Key::Home, Key::Ctl(1), Key::End, Key::Ctl(5)]));
                for _ in 0..c.rng.below(12) {
                    ks.push(*c.rng.pick(&[Key::Right, Key::Left, Key::Ctl(6), Key::Ctl(2)]));
                }
                ks.push(*c.rng.pick(&[
                    Key::Ctl(11), Key::Ctl(21), Key::Ctl(23), Key::Ctl(25), Key::Del, Key::Ctl(8), Key::Ctl(127),
                ]));
            }
            3 => {
                ks.push(*c.rng.pick(&[Key::Ctl(4), Key::Ctl(7), Key::Ctl(10), Key::Ctl(13)]));
                if ks[0] == Key::Ctl(4) && d.ui.ed.buf.is_empty() {
                    ks[0] = Key::Ctl(10);
                }
            }
            _ => {
                let n = c.rng.range(1, 10);
                ks = gkeys(&mut c.rng, n, &kc);
            }
        }
        // (keep the line short enough)
        let limit = if screen { w * (h - 4) / 2 } else { 400 };
        let mut e = d.ui.ed.clone();
        let mut out = vec![];
        for k in ks {
            let mut f = e.clone();
            f.key(k);
            if f.buf.len() < limit {
                e = f;
                out.push(k);
            }
        }
        out.push(Key::Ctl(9));
        c.sig(&format!("{:?} {:?}", d.ui.ed.text(), out));
        c.count("keys", out.len() as u64);
        d.keys(&out)?;
        c.count("lines_compared", 1);
        if screen {
            d.check()?;
        }
        check_all(&mut d)?;
    }
    c.sample(|| format!("line at the end: {:?}", d.ui.ed.text()));
    Ok(())
}
/// All short sequences of keys on a small line, systematically.
fn s_small(c: &mut Ctx) -> R<()> {
    let alphabet = [
        Key::Left, Key::Right, Key::Home, Key::End, Key::Del, Key::Ctl(8), Key::Ctl(11), Key::Ctl(21), Key::Ctl(23),
        Key::Ctl(25), Key::Ch('x'), Key::Ch(' '), Key::Ch('\u{301}'), Key::Ch('日'), Key::Ctl(7),
    ];
    let starts = ["", "a", "é ", " b", "a b", "ab  cd", "a\u{301}b", "日本 語", "e\u{301} \u{308}x ", "  ", "x\u{301}\u{308}"];
    let mut d = probed(c, 100, 30)?;
    let n = alphabet.len();
    let per = 25;
    for j in 0..per {
        let i = c.idx * per + j;
        let s = starts[i % starts.len()];
        let q = i / starts.len();
        // (all single keys first, then all pairs, then all triples...)
        let mut ks: Vec<Key> = vec![Key::Ctl(7)];
        ks.extend(s.chars().map(Key::Ch));
        let seq: Vec<Key> = if q < n {
            vec![alphabet[q]]
        } else if q < n + n * n {
            let q = q - n;
            vec![alphabet[q / n], alphabet[q % n]]
        } else {
            let k = c.rng.range(3, 5);
            (0..k).map(|_| *c.rng.pick(&alphabet)).collect()
        };
        for k in &seq {
            ks.push(*k);
            ks.push(Key::Ctl(9));
        }
        c.sig(&format!("{} {:?}", s, seq));
        d.keys(&ks)?;
        d.s.sync()?;
    }
    c.count("lines_compared", d.calls.len() as u64);
    check_all(&mut d)
}
/// Long lines and repeated yanking.
fn s_long(c: &mut Ctx) -> R<()> {
    let mut d = {
        let w = *c.rng.pick(&[20, 80, 200]);
        probed(c, w, 50)
    }?;
    let n = if c.idx % 8 == 7 { c.rng.range(4100, 9000) } else { c.rng.range(300, 1500) };
    let t = gtext(&mut c.rng, n, TextCfg { wide: true, zw: true, ctl: false, nl: false, ascii: false });
    let ks: Vec<Key> = t.chars().map(Key::Ch).collect();
    d.keys(&ks)?;
    d.keys(&[Key::Ctl(9)])?;
    for _ in 0..30 {
        let k = *c.rng.pick(&[
            Key::Home, Key::End, Key::Ctl(11), Key::Ctl(21), Key::Ctl(25), Key::Ctl(25), Key::Left, Key::Ctl(23),
        ]);
        let n = if k == Key::Left { c.rng.range(1, 150) } else { 1 };
        let mut e = d.ui.ed.clone();
        e.key(k);
        if e.buf.len() > 20000.max(n) {
            continue;
        }
        d.keys(&vec![k; n])?;
        d.keys(&[Key::Ctl(9)])?;
        d.s.sync()?;
    }
    d.keys(&[Key::Ctl(13)])?;
    c.count("lines_compared", d.calls.len() as u64);
    check_all(&mut d)
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        level: "exploration",
        rule: "sequences of typed text and editing keys; after every few keys (in scenario small: after every one) the real line and cursor, as shown to a recording completor, the lines delivered and (screen) the display are compared with the reference editor; a case is distinct by the lines and keys it consists of",
        assumptions: vec!["the completor is given the line being edited (checked by C20)"],
        scens: vec![scen("small", 300, s_small), scen("keys", 1500, s_keys), scen("screen", 500, s_screen), scen("long", 60, s_long)],
    }
}

// ------------------------------------------------------------------- C05

fn any_key(r: &mut Rng) -> Key {
    let kc = KeyCfg { wide: true, resp: true, ret: true, tab: true, ..KeyCfg::EDIT };
    match r.below(3) {
        0 => {
            let n = *r.pick(&[
                0u8, 3, 4, 5, 7, 10, 13, 14, 15, 16, 17, 18, 19, 20, 22, 24, 28, 29, 30, 31, 127, 1, 2, 6, 8, 11, 21, 23, 25,
            ]);
            Key::Ctl(n)
        }
        _ => gkey(r, &kc),
    }
}
fn s_resp(c: &mut Ctx) -> R<()> {
    let mut d = probed(c, 60, 40)?;
    if c.rng.chance(1, 4) {
        // finished lines can't be saved
        let h = HistSpec { interval: Some(c.rng.range(1, 2)), failing_autosave: true, ..ghist(&mut c.rng, true) };
        model_swap(&mut d, &h);
        d.s.call(Cmd::SwapHistory(h))?;
        d.s.sync()?;
        c.count("failing_histories", 1);
    }
    let mut next = 1;
    for _ in 0..40 {
        match c.rng.below(6) {
            0 => {
                for _ in 0..c.rng.range(1, 4) {
                    d.cmd(if c.rng.chance(1, 2) { Cmd::Custom(next) } else { Cmd::CustomBox(next) })?;
                    d.want.push(Resp::Custom(next));
                    next += 1;
                }
            }
            1 => {
                // a lone escape
                d.keys(&[Key::Ctl(27)])?;
                std::thread::sleep(Duration::from_millis(60));
            }
            2 => {
                // requests must not disturb the line
                let m = gline(&mut c.rng, 30, TextCfg::SIMPLE, true);
                let x = match c.rng.below(5) {
                    0 => Cmd::Print(Via::Io, m),
                    1 => Cmd::Status(Some(m)),
                    2 => Cmd::Prompt(m, true, false),
                    3 => Cmd::Notice(m, Dur::Ms(100_000)),
                    _ => Cmd::Bell,
                };
                d.cmd(x)?;
            }
            _ => {
                let n = c.rng.range(1, 10);
                let mut ks: Vec<Key> = (0..n).map(|_| any_key(&mut c.rng)).collect();
                let mut e = d.ui.ed.clone();
                ks.retain(|k| {
                    let mut f = e.clone();
                    f.key(*k);
                    let ok = f.buf.len() < 500;
                    if ok {
                        e = f
                    }
                    ok
                });
                ks.push(Key::Ctl(9));
                c.sig(&format!("{:?}", ks));
                let mut bytes = vec![];
                for k in &ks {
                    k.bytes(&mut bytes);
                }
                // (the model is driven by keys, the terminal by pieces)
                let mut fx = vec![];
                for k in &ks {
                    d.ui.notice = None;
                    for e in d.ui.ed.key(*k) {
                        match e {
                            Effect::Resp(r) => fx.push(r),
                            Effect::Tab => {
                                let call = CompCall {
                                    id: PROBE,
                                    input: d.ui.ed.text(),
                                    cursor: d.ui.ed.cur_bytes(),
                                    presses: d.ui.ed.tabs,
                                };
                                d.calls.push(call);
                            }
                            _ => {}
                        }
                    }
                }
                c.count("keys", ks.len() as u64);
                d.want.extend(fx);
                write_pieces(&mut d.s, &mut c.rng, &bytes)?;
            }
        }
        // (so that customs and keys are in a known order)
        d.s.sync()?;
        if c.rng.chance(1, 3) {
            check_all(&mut d)?;
        }
    }
    c.count("responses_expected", d.want.len() as u64);
    check_all(&mut d)
}
/// Split the bytes at random places; never right after an escape, where time
/// would matter.
fn write_pieces(s: &mut Sess, r: &mut Rng, b: &[u8]) -> R<()> {
    let mut i = 0;
    while i < b.len() {
        let mut n = (i + *r.pick(&[1, 1, 2, 3, 7, 40])).min(b.len());
        while n < b.len() && b[n - 1] == 27 {
            n += 1;
        }
        s.type_bytes(&b[i..n])?;
        if r.chance(1, 2) {
            s.sync()?;
        }
        i = n;
    }
    Ok(())
}
/// Keys and custom values at the same time: nothing lost, each source in order.
fn s_merge(c: &mut Ctx) -> R<()> {
    let mut d = probed(c, 60, 40)?;
    let nt = c.rng.range(1, 4);
    let mut progs = vec![];
    for t in 0..nt {
        let mut p = vec![];
        for i in 0..c.rng.range(5, 40) {
            let n = (t as u64 + 1) * 1000 + i as u64;
            p.push(if c.rng.chance(1, 2) { TOp::Custom(n) } else { TOp::CustomBox(n) });
            if c.rng.chance(1, 4) {
                p.push(TOp::SleepUs(c.rng.range(1, 400) as u64));
            }
            if c.rng.chance(1, 4) {
                p.push(TOp::Print(ML::plain("x")));
            }
        }
        progs.push(p);
    }
    let mut want: Vec<Vec<Resp>> = progs
        .iter()
        .map(|p| {
            p.iter()
                .filter_map(|o| match o {
                    TOp::Custom(n) | TOp::CustomBox(n) => Some(Resp::Custom(*n)),
                    _ => None,
                })
                .collect()
        })
        .collect();
    d.s.call(Cmd::Spawn(progs, c.rng.chance(1, 2)))?;
    let mut keys = vec![];
    for _ in 0..c.rng.range(3, 15) {
        let ks: Vec<Key> = (0..c.rng.range(1, 6)).map(|_| any_key(&mut c.rng)).collect();
        for k in &ks {
            if d.ui.ed.buf.len() > 300 {
                d.keys(&[Key::Ctl(7)])?;
            }
            d.keys(&[*k])?;
        }
        keys.extend(ks);
        if c.rng.chance(1, 3) {
            std::thread::sleep(Duration::from_micros(c.rng.range(10, 1000) as u64));
        }
    }
    want.push(std::mem::take(&mut d.want));
    d.s.call(Cmd::Join)?;
    d.s.sync()?;
    d.check_calls()?;
    let got = d.s.drain()?;
    let mut order = String::new();
    for (r, _) in &got {
        let src = match r {
            Resp::Custom(n) => (*n / 1000 - 1) as usize,
            _ => nt,
        };
        order.push((b'a' + src as u8) as char);
        ensure!(!want[src].is_empty(), "response {:?} more often than expected, or not expected; all: {:?}", r, got);
        let w = want[src].remove(0);
        ensure!(w == *r, "response {:?} where {:?} of the same source was due", r, w);
    }
    for w in &want {
        ensure!(w.is_empty(), "responses lost: {:?}", w);
    }
    c.sig(&order);
    c.count("responses_expected", got.len() as u64);
    Ok(())
}
/// Every control key in every kind of state.
fn s_each(c: &mut Ctx) -> R<()> {
    let mut d = probed(c, 60, 40)?;
    let texts = ["", "x", "two words", "日本"];
    for n in (0u8..32).chain([127]) {
        if [9, 26, 12].contains(&n) {
            continue;
        }
        let t = texts[c.idx % 4];
        let mut ks: Vec<Key> = t.chars().map(Key::Ch).collect();
        if c.idx / 4 % 2 == 1 {
            ks.push(Key::Left);
        }
        d.keys(&ks)?;
        d.s.sync()?;
        if c.idx / 8 % 2 == 1 {
            d.cmd(Cmd::Notice(ML::plain("note"), Dur::Ms(100_000)))?;
            d.s.sync()?;
        }
        d.keys(&[Key::Ctl(n)])?;
        if n == 27 {
            std::thread::sleep(Duration::from_millis(70));
        }
        d.keys(&[Key::Ctl(9)])?;
        d.s.sync()?;
        check_all(&mut d)?;
        d.keys(&[Key::Ctl(7)])?;
        d.s.sync()?;
        c.sig(&format!("{} {}", n, c.idx % 16));
        check_all(&mut d)?;
    }
    Ok(())
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        level: "exploration",
        rule: "keys of all kinds, custom values and output requests; the responses read are compared with the documented ones, the line being edited with the reference editor; a case is distinct by its keys (each, resp) or by the order in which responses of several sources arrived (merge)",
        assumptions: vec!["the completor is given the line being edited (checked by C20)"],
        scens: vec![scen("each", 16, s_each), scen("resp", 700, s_resp), scen("merge", 500, s_merge).racy()],
    }
}

// ------------------------------------------------------------------- C06

fn any_char(r: &mut Rng) -> char {
    loop {
        let n = match r.below(8) {
            0 => r.range(0x20, 0x7e) as u32,
            1 => r.range(0xa0, 0x7ff) as u32,
            2 => r.range(0x800, 0xffff) as u32,
            3 => r.range(0x10000, 0x10ffff) as u32,
            4 => *r.pick(&[0xa0, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xfeff, 0x80000, 0xfffff]),
            5 => *r.pick(W1) as u32,
            6 => *r.pick(W2) as u32,
            _ => *r.pick(W0) as u32,
        };
        if let Some(c) = char::from_u32(n) {
            if !c.is_control() && c != '\u{2028}' && c != '\u{2029}' {
                return c;
            }
        }
    }
}
/// Valid text of all kinds, in pieces.
fn s_utf8(c: &mut Ctx) -> R<()> {
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(200, 50)))?;
    for _ in 0..6 {
        let t: String = (0..c.rng.range(1, 60)).map(|_| any_char(&mut c.rng)).collect();
        c.sig(&t);
        c.count("characters", t.chars().count() as u64);
        let mut b = t.clone().into_bytes();
        b.push(13);
        write_pieces(&mut d.s, &mut c.rng, &b)?;
        d.want.push(Resp::Input(t));
        d.s.sync()?;
        d.check_resps()?;
    }
    Ok(())
}
/// Characters in order of their code points, all of them over all cases.
fn s_codepoints(c: &mut Ctx) -> R<()> {
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(200, 50)))?;
    let per = 1100;
    let lo = if c.thorough { (c.idx as u32 * per) % 0x110000 } else { (c.idx as u32).wrapping_mul(0x9e3779b1) % (0x110000 - per) };
    let chars: Vec<char> = (lo..lo + per)
        .filter_map(char::from_u32)
        .filter(|c| !c.is_control() && *c != '\u{2028}' && *c != '\u{2029}')
        .collect();
    for t in chars.chunks(45) {
        let t: String = t.iter().collect();
        let mut b = t.clone().into_bytes();
        b.push(10);
        d.s.type_bytes(&b)?;
        d.want.push(Resp::Input(t));
        d.s.sync()?;
    }
    c.count("characters", chars.len() as u64);
    c.sig(&format!("{}", lo));
    d.check_resps()
}
fn bad_seq(r: &mut Rng) -> Vec<u8> {
    let cont = |r: &mut Rng| r.range(0x80, 0xbf) as u8;
    match r.below(9) {
        0 => (0..r.range(1, 4)).map(|_| cont(r)).collect(),
        1 => vec![*r.pick(&[0xc0, 0xc1, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff])],
        2 => {
            // invalid lead with continuations
            let mut v = vec![*r.pick(&[0xc0u8, 0xc1, 0xf5, 0xf8, 0xfb, 0xfc, 0xfe, 0xff])];
            for _ in 0..r.range(1, 5) {
                v.push(cont(r));
            }
            v
        }
        3 => vec![r.range(0xc2, 0xdf) as u8],
        4 => {
            let mut v = vec![r.range(0xe1, 0xec) as u8];
            if r.chance(1, 2) {
                v.push(cont(r));
            }
            v
        }
        5 => {
            let mut v = vec![r.range(0xf1, 0xf3) as u8];
            for _ in 0..r.below(3) {
                v.push(cont(r));
            }
            v
        }
        6 => vec![0xed, r.range(0xa0, 0xbf) as u8, cont(r)],
        7 => vec![0xf4, r.range(0x90, 0xbf) as u8, cont(r), cont(r)],
        _ => match r.below(3) {
            0 => vec![0xe0, r.range(0x80, 0x9f) as u8, cont(r)],
            1 => vec![0xf0, r.range(0x80, 0x8f) as u8, cont(r), cont(r)],
            _ => vec![0xc1, cont(r)],
        },
    }
}
/// Compare what arrived with pieces of valid text, between which there are
/// runs of (bytes) malformed input.
fn match_bad(got: &str, want: &[(String, usize)]) -> Result<(), String> {
    let g: Vec<char> = got.chars().collect();
    let mut i = 0;
    for (t, bad) in want {
        for ch in t.chars() {
            if g.get(i) != Some(&ch) {
                return Err(format!("{:?} where {:?} was due", g.get(i), ch));
            }
            i += 1;
        }
        let mut n = 0;
        while g.get(i) == Some(&'\u{fffd}') {
            i += 1;
            n += 1;
        }
        if *bad > 0 && (n < 1 || n > *bad) {
            return Err(format!("{} malformed bytes became {} replacement characters", bad, n));
        }
        if *bad == 0 && n > 0 {
            return Err("replacement characters without malformed input".into());
        }
    }
    if i != g.len() {
        return Err("something more arrived".into());
    }
    Ok(())
}
fn s_malformed(c: &mut Ctx) -> R<()> {
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(200, 50)))?;
    for _ in 0..8 {
        let mut want: Vec<(String, usize)> = vec![];
        let mut b = vec![];
        for _ in 0..c.rng.range(1, 6) {
            let n = c.rng.range(1, 4);
            let t: String = (0..n)
                .map(|_| loop {
                    let x = any_char(&mut c.rng);
                    if x != '\u{fffd}' {
                        break x;
                    }
                })
                .collect();
            let bad = bad_seq(&mut c.rng);
            b.extend_from_slice(t.as_bytes());
            b.extend_from_slice(&bad);
            want.push((t, bad.len()));
        }
        if c.rng.chance(1, 2) {
            let t: String = (0..c.rng.range(1, 3)).map(|_| *c.rng.pick(W1)).collect();
            b.extend_from_slice(t.as_bytes());
            want.push((t, 0));
        }
        b.push(13);
        c.sig(&format!("{:?}", b));
        c.count("malformed_runs", want.len() as u64);
        write_pieces(&mut d.s, &mut c.rng, &b)?;
        d.s.sync()?;
        let got = d.s.drain()?;
        ensure!(got.len() == 1, "typed {:?}: responses {:?} instead of one line", b, got);
        match &got[0].0 {
            Resp::Input(t) => {
                if let Err(e) = match_bad(t, &want) {
                    bail!("typed {:x?}: got {:?}: {}", b, t, e);
                }
            }
            o => bail!("typed {:?}: response {:?}", b, o),
        }
    }
    Ok(())
}
fn unknown_csi(r: &mut Rng) -> Vec<u8> {
    loop {
        let mut v = b"\x1b[".to_vec();
        if r.chance(1, 5) {
            // a function key
            v.extend(format!("{}{}~", r.range(5, 399), if r.chance(1, 3) { ";5" } else { "" }).bytes());
            if !v.starts_with(b"\x1b[200") && !v.starts_with(b"\x1b[201") && &v[2..] != b"7~" && &v[2..] != b"8~" {
                return v;
            }
            continue;
        }
        let n = if r.chance(1, 12) { *r.pick(&[30, 33, 40, 64, 70, 130, 255, 256, 257, 300]) } else { r.below(7) };
        for _ in 0..n {
            v.push(if r.chance(3, 4) { *r.pick(b"0123456789;;:?<=>") } else { r.range(0x20, 0x2f) as u8 });
        }
        v.push(r.range(0x40, 0x7e) as u8);
        let s = &v[2..];
        let known: [&[u8]; 7] = [b"A", b"B", b"C", b"D", b"H", b"F", b"3~"];
        if known.contains(&s) {
            continue;
        }
        // (variants of the keys that are handled, e.g. with modifiers, might
        // be recognized)
        if s[s.len() - 1] != b'~' && b"ABCDHF".contains(&s[s.len() - 1]) {
            continue;
        }
        if s.starts_with(b"3") && s.ends_with(b"~") || s == b"1~" || s == b"4~" || s == b"7~" || s == b"8~" || s == b"Z" {
            continue;
        }
        // bracketed paste and mouse reports might be more than one sequence
        if s == b"M" || s.starts_with(b"200~") || s.starts_with(b"201~") || s[0] == b'[' {
            continue;
        }
        return v;
    }
}
/// Keys, text and unknown sequences.
fn s_csi(c: &mut Ctx) -> R<()> {
    let mut d = probed(c, 100, 40)?;
    for _ in 0..12 {
        let mut b = vec![];
        let mut ks = vec![];
        for _ in 0..c.rng.range(2, 14) {
            let k = match c.rng.below(8) {
                0 | 1 => {
                    b.extend(unknown_csi(&mut c.rng));
                    c.count("unknown_sequences", 1);
                    continue;
                }
                2 => *c.rng.pick(&[Key::Left, Key::Right, Key::Home, Key::End, Key::Del]),
                3 => Key::Left,
                _ => Key::Ch(any_char(&mut c.rng)),
            };
            // (how the odd code points combine is not the question here)
            if let Key::Ch(ch) = k {
                if cwidth(ch) == 0 || (!W1.contains(&ch) && !W2.contains(&ch)) {
                    continue;
                }
            }
            k.bytes(&mut b);
            ks.push(k);
        }
        if d.ui.ed.buf.len() > 300 {
            ks.push(Key::Ctl(7));
            b.push(7);
        }
        ks.push(Key::Ctl(9));
        b.push(9);
        c.sig(&format!("{:?}", b));
        for k in &ks {
            for e in d.ui.ed.key(*k) {
                match e {
                    Effect::Resp(r) => d.want.push(r),
                    Effect::Tab => {
                        let call = CompCall {
                            id: PROBE,
                            input: d.ui.ed.text(),
                            cursor: d.ui.ed.cur_bytes(),
                            presses: 1,
                        };
                        d.ui.ed.tabs = 1;
                        d.calls.push(call)
                    }
                    _ => {}
                }
            }
        }
        // An unknown sequence might or might not count as a key.
        write_pieces(&mut d.s, &mut c.rng, &b)?;
        d.s.sync()?;
        let got = d.s.call(Cmd::TakeCompCalls)?.calls;
        let want = std::mem::take(&mut d.calls);
        ensure!(
            got.len() == 1 && got[0].input == want[0].input && got[0].cursor == want[0].cursor,
            "typed {:?}: line {:?}, should be {:?}",
            String::from_utf8_lossy(&b),
            got,
            want
        );
        d.check_resps()?;
    }
    Ok(())
}
/// A lot of input at once: text, keys and unknown sequences, with the bytes of
/// any of them ending up anywhere in what is read at a time.
fn s_paste(c: &mut Ctx) -> R<()> {
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(100, 40)))?;
    for _ in 0..3 {
        let total = *c.rng.pick(&[254, 255, 256, 257, 258, 300, 511, 512, 513, 800, 1500, 3000, 6000]);
        let esc = *c.rng.pick(&[2, 6, 30]);
        let mut b = vec![];
        let mut n = 0;
        if c.rng.chance(1, 2) {
            // sequences back to back, with every alignment
            for _ in 0..c.rng.below(6) {
                b.push(b'a' + n % 26);
                d.ui.ed.key(Key::Ch((b'a' + n % 26) as char));
                n += 1;
            }
        }
        while b.len() < total {
            let k = match c.rng.below(esc + 5) {
                0 => *c.rng.pick(&[Key::Left, Key::Right, Key::Home, Key::End, Key::Del]),
                1 => {
                    b.extend(unknown_csi(&mut c.rng));
                    c.count("unknown_sequences", 1);
                    continue;
                }
                2 => *c.rng.pick(&[Key::Ctl(8), Key::Ctl(2), Key::Ctl(6), Key::Ctl(1), Key::Ctl(5)]),
                _ => {
                    let ch = if c.rng.chance(1, 2) { *c.rng.pick(W1) } else { *c.rng.pick(W2) };
                    if cwidth(ch) == 0 {
                        continue;
                    }
                    Key::Ch(ch)
                }
            };
            for k in std::iter::once(k).chain((d.ui.ed.buf.len() > 60).then_some(Key::Ctl(13))) {
                k.bytes(&mut b);
                for e in d.ui.ed.key(k) {
                    if let Effect::Resp(r) = e {
                        d.want.push(r);
                    }
                }
            }
        }
        let k = Key::Ctl(13);
        k.bytes(&mut b);
        for e in d.ui.ed.key(k) {
            if let Effect::Resp(r) = e {
                d.want.push(r);
            }
        }
        c.count("bytes_at_once", b.len() as u64);
        c.sig(&format!("{:?}", b));
        d.s.write_in(&b)?;
        d.s.sync()?;
        d.check_resps()?;
    }
    Ok(())
}
/// Arbitrary bytes; afterwards input has to work.
fn s_storm(c: &mut Ctx) -> R<()> {
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(80, 40)))?;
    for _ in 0..4 {
        let n = c.rng.range(1, 300);
        let mode = c.rng.below(3);
        let mut b: Vec<u8> = vec![];
        while b.len() < n {
            match mode {
                0 => b.push(c.rng.below(256) as u8),
                1 => b.push(*c.rng.pick(&[0x1b, b'[', b'1', b';', b'~', b'A', 0x80, 0xc3, 0xe2, 0xf0, 0xff, b'x', 9, 8, 23])),
                _ => {
                    let mut x = bad_seq(&mut c.rng);
                    b.append(&mut x);
                    if c.rng.chance(1, 3) {
                        b.extend_from_slice(b"\x1b[");
                    }
                    if c.rng.chance(1, 3) {
                        b.push(c.rng.below(128) as u8);
                    }
                }
            }
        }
        b.retain(|x| *x != 26);
        c.sig(&format!("{:?}", b));
        c.count("random_bytes", b.len() as u64);
        write_pieces(&mut d.s, &mut c.rng, &b)?;
        d.s.sync()?;
        std::thread::sleep(Duration::from_millis(60));
        // end whatever sequence is open, then start over
        d.s.type_bytes(b"zzzz")?;
        d.s.sync()?;
        d.s.type_bytes(b"\x07")?;
        d.s.sync()?;
        let got = d.s.drain()?;
        ensure!(
            matches!(got.last(), Some((Resp::Discarded(_), _))),
            "after {:x?}: ^G is not answered: {:?}",
            b,
            got.last()
        );
        d.s.type_bytes("ok é日\r".as_bytes())?;
        d.s.sync()?;
        d.want.push(Resp::Input("ok é日".into()));
        d.check_resps()?;
    }
    Ok(())
}
fn s_escape(c: &mut Ctx) -> R<()> {
    let mut d = probed(c, 80, 40)?;
    for _ in 0..4 {
        let t = gtext(&mut c.rng, 3, TextCfg::SIMPLE);
        let ks: Vec<Key> = t.chars().map(Key::Ch).collect();
        d.keys(&ks)?;
        d.s.type_bytes(b"\x1b")?;
        d.want.push(Resp::Escape);
        std::thread::sleep(Duration::from_millis(80));
        d.s.sync()?;
        check_all(&mut d)?;
        // what follows later is not part of a sequence
        let k = c.rng.below(9);
        match k {
            0 => d.keys(&[Key::Ch('['), Key::Ch('A')])?,
            4 => {
                // several at once
                let n = c.rng.range(2, 5);
                let v = vec![0x1b; n];
                d.s.type_bytes(&v)?;
                d.want.extend((0..n).map(|_| Resp::Escape));
                std::thread::sleep(Duration::from_millis(80));
                d.s.sync()?;
            }
            5 => {
                // an escape and a key that sends a sequence
                d.s.type_bytes(b"\x1b")?;
                d.want.push(Resp::Escape);
                d.keys(&[*c.rng.pick(&[Key::Left, Key::Home, Key::Del])])?;
            }
            6 => {
                d.s.type_bytes(b"\x1b")?;
                d.want.push(Resp::Escape);
                d.keys(&[Key::Ch(*c.rng.pick(&['\u{a0}', 'é', '日', '😀']))])?;
            }
            7 => {
                d.s.type_bytes(b"\x1b")?;
                d.want.push(Resp::Escape);
                d.keys(&[*c.rng.pick(&[Key::Ctl(1), Key::Ctl(2), Key::Ctl(5), Key::Ctl(6), Key::Ctl(8), Key::Ctl(23), Key::Ctl(13)])])?;
            }
            1 => d.keys(&[Key::Left])?,
            2 => d.keys(&[Key::Ctl(20)])?,
            _ => {
                // escape right before a control character or another escape
                d.s.type_bytes(b"\x1b\x14")?;
                d.want.push(Resp::Escape);
                d.want.push(Resp::Info);
            }
        }
        d.ui.ed.tabs = 0;
        d.keys(&[Key::Ctl(9)])?;
        d.s.sync()?;
        check_all(&mut d)?;
        c.sig(&format!("{} {}", t, k));
    }
    Ok(())
}
/// Pauses within sequences (only an escape byte itself is subject to time).
fn s_pause(c: &mut Ctx) -> R<()> {
    let mut d = probed(c, 80, 40)?;
    for _ in 0..4 {
        let t = gtext(&mut c.rng, 4, TextCfg::SIMPLE);
        let ks: Vec<Key> = t.chars().map(Key::Ch).collect();
        d.keys(&ks)?;
        let (b, k) = match c.rng.below(4) {
            0 => {
                let mut b = vec![];
                let ch = any_char(&mut c.rng);
                if cwidth(ch) == 0 || (!W1.contains(&ch) && !W2.contains(&ch)) {
                    continue;
                }
                Key::Ch(ch).bytes(&mut b);
                (b, Some(Key::Ch(ch)))
            }
            1 => (unknown_csi(&mut c.rng), None),
            _ => {
                let k = *c.rng.pick(&[Key::Left, Key::Home, Key::End, Key::Del, Key::Right]);
                let mut b = vec![];
                k.bytes(&mut b);
                (b, Some(k))
            }
        };
        c.sig(&format!("{} {:?}", t, b));
        let mut i = 0;
        while i < b.len() {
            let mut n = (i + c.rng.range(1, 3)).min(b.len());
            while n < b.len() && b[n - 1] == 27 {
                n += 1;
            }
            d.s.type_bytes(&b[i..n])?;
            if n < b.len() && c.rng.chance(2, 3) {
                std::thread::sleep(Duration::from_millis(*c.rng.pick(&[30, 60, 110, 220])));
                c.count("pauses", 1);
            }
            i = n;
        }
        if let Some(k) = k {
            d.ui.ed.key(k);
        }
        d.ui.ed.tabs = 0;
        d.keys(&[Key::Ctl(9)])?;
        d.s.sync()?;
        check_all(&mut d)?;
    }
    Ok(())
}
pub fn c06() -> Check {
    Check {
        id: "C06",
        level: "exploration",
        rule: "byte streams (valid text of every kind, code points in order, malformed sequences between valid text, key sequences and unknown CSI sequences, arbitrary bytes) in random pieces; what arrives is compared with an independent decoding; a case is distinct by its bytes",
        assumptions: vec!["pieces are never split right after an escape byte, where time matters"],
        scens: vec![
            scen("utf8", 500, s_utf8),
            scen("codepoints", 40, s_codepoints),
            scen("malformed", 700, s_malformed),
            scen("csi", 700, s_csi),
            scen("paste", 500, s_paste).racy(),
            scen("storm", 250, s_storm),
            scen("escape", 30, s_escape),
            scen("pause", 60, s_pause).racy(),
        ],
    }
}

// ------------------------------------------------------------------- C07

fn ghist(r: &mut Rng, dups: bool) -> HistSpec {
    let n = *r.pick(&[0, 0, 1, 2, 3, 5, 8]);
    let mut lines = vec![];
    let mut k = 0;
    while lines.len() < n {
        let l = if r.chance(1, 3) {
            format!("{}", r.pick(&["alpha", "beta", "gamma", "日本", "", " "]))
        } else {
            let m = r.range(1, 10);
            gtext(r, m, TextCfg { wide: true, zw: false, ctl: false, nl: false, ascii: false })
        };
        k += 1;
        if !dups && lines.contains(&l) && k < 1000 {
            continue;
        }
        lines.push(l);
    }
    HistSpec {
        lines,
        limit: if r.chance(1, 3) { Some(r.range(1, 6)) } else { None },
        strip: r.chance(1, 2),
        file: None,
        interval: if r.chance(1, 4) { Some(r.range(1, 3)) } else { None },
        failing_autosave: r.chance(1, 2),
    }
}
fn model_swap(d: &mut Drv, h: &HistSpec) {
    d.ui.ed.hist_limit = h.limit;
    d.ui.ed.hist_strip = h.strip;
    d.ui.ed.hist_replaced(h.lines.clone());
}
fn hist_key(r: &mut Rng, d: &Drv) -> Key {
    let kc = KeyCfg { wide: true, hist: true, ret: true, ..KeyCfg::EDIT };
    let _ = d;
    match r.below(10) {
        0..=3 => *r.pick(&[Key::Up, Key::Ctl(16), Key::Up, Key::Down, Key::Ctl(14)]),
        4 => *r.pick(&[Key::Ctl(10), Key::Ctl(13), Key::Ctl(7), Key::Ctl(4)]),
        _ => gkey(r, &kc),
    }
}
fn s_browse(c: &mut Ctx) -> R<()> {
    let mut d = probed(c, 60, 24)?;
    if c.rng.chance(2, 3) {
        let h = ghist(&mut c.rng, true);
        model_swap(&mut d, &h);
        d.s.call(Cmd::SwapHistory(h))?;
        d.s.sync()?;
    }
    for _ in 0..50 {
        match c.rng.below(14) {
            0 => {
                let mut h = ghist(&mut c.rng, true);
                if c.rng.chance(1, 2) {
                    // similar to the old one
                    h.lines = d.ui.ed.hist.clone();
                    match c.rng.below(4) {
                        0 => {
                            h.lines.pop();
                        }
                        1 => h.lines.push("added".into()),
                        2 => h.lines.insert(0, "first".into()),
                        _ => {
                            if !h.lines.is_empty() {
                                h.lines.remove(0);
                            }
                        }
                    }
                }
                let old = d.ui.ed.hist.clone();
                c.sig(&format!("swap {:?} {:?}", d.ui.ed.hidx, h.lines));
                model_swap(&mut d, &h);
                let got = d.s.call(Cmd::SwapHistory(h))?.lines;
                ensure!(got == old, "the history taken out is {:?}, should be {:?}", got, old);
                c.count("history_replacements", 1);
            }
            1 => {
                let m = gline(&mut c.rng, 10, TextCfg::SIMPLE, false);
                let clear = c.rng.chance(1, 2);
                d.cmd(Cmd::Prompt(m, true, clear))?;
            }
            _ => {
                let n = *c.rng.pick(&[1, 1, 1, 2, 3, 6]);
                let mut ks: Vec<Key> = (0..n).map(|_| hist_key(&mut c.rng, &d)).collect();
                ks.push(Key::Ctl(9));
                if d.ui.ed.buf.len() > 200 {
                    ks.insert(0, Key::Ctl(21));
                }
                c.sig(&format!("{:?} {} {:?}", d.ui.ed.hidx, d.ui.ed.hist.len(), ks));
                c.count("keys", ks.len() as u64);
                d.keys(&ks)?;
            }
        }
        d.check()?;
        check_all(&mut d)?;
        let got = d.s.call(Cmd::HistoryLines)?.lines;
        ensure!(got == d.ui.ed.hist, "history is {:?}, should be {:?}", got, d.ui.ed.hist);
    }
    ensure!(d.s.vt.bells == d.bells, "{} bells rung instead of {}", d.s.vt.bells, d.bells);
    Ok(())
}
/// Keys that are waiting while the history is replaced.
fn s_race(c: &mut Ctx) -> R<()> {
    let mut d = probed(c, 60, 24)?;
    let h = ghist(&mut c.rng, false);
    let h = HistSpec { limit: None, interval: None, strip: true, ..h };
    model_swap(&mut d, &h);
    d.s.call(Cmd::SwapHistory(h))?;
    d.s.sync()?;
    for g in 0..12u32 {
        let ks: Vec<Key> = (0..c.rng.below(5))
            .map(|_| *c.rng.pick(&[Key::Up, Key::Up, Key::Down, Key::Ch('x'), Key::Ctl(23)]))
            .collect();
        d.keys(&ks)?;
        d.keys(&[Key::Ctl(9)])?;
        d.s.sync()?;
        // the output thread is busy for a while
        d.cmd(Cmd::SetCompletor(PROBE, vec![CompAct::Gate(g)]))?;
        d.s.sync()?;
        d.keys(&[Key::Ctl(9)])?;
        d.s.sync()?;
        let mut h = ghist(&mut c.rng, false);
        if c.rng.chance(1, 2) {
            h.lines = d.ui.ed.hist.clone();
            h.lines.truncate(c.rng.below(3));
        }
        if h.lines.len() > 1 && c.rng.chance(1, 3) {
            h.lines.rotate_left(1);
        }
        h.limit = None;
        h.interval = None;
        h.strip = true;
        let ks: Vec<Key> = (0..c.rng.range(1, 5))
            .map(|_| *c.rng.pick(&[Key::Up, Key::Down, Key::Up, Key::Down, Key::Ch('y'), Key::Ctl(13)]))
            .collect();
        let keys_first = c.rng.chance(2, 3);
        c.sig(&format!("{:?} {:?} {:?} {}", d.ui.ed.hidx, h.lines, ks, keys_first));
        model_swap(&mut d, &h);
        if keys_first {
            d.keys(&ks)?;
            d.s.sync()?;
        }
        d.s.call(Cmd::SwapHistory(h))?;
        if !keys_first {
            d.keys(&ks)?;
        }
        d.s.call(Cmd::OpenGate(g))?;
        d.s.sync()?;
        d.keys(&[Key::Ctl(9)])?;
        d.check()?;
        check_all(&mut d)?;
        c.count("replacements_with_keys_waiting", 1);
    }
    Ok(())
}
/// Histories replaced by a busy thread while keys are typed: nothing in
/// particular to compare, but it must go on working.
fn s_fast(c: &mut Ctx) -> R<()> {
    let mut d = probed(c, 60, 24)?;
    for _ in 0..60 {
        let ks: Vec<Key> = (0..c.rng.range(1, 6))
            .map(|_| *c.rng.pick(&[Key::Up, Key::Down, Key::Up, Key::Ch('y'), Key::Ctl(13), Key::Ctl(23)]))
            .collect();
        let mut b = vec![];
        for k in &ks {
            k.bytes(&mut b);
        }
        d.s.type_bytes(&b)?;
        let h = ghist(&mut c.rng, true);
        c.sig(&format!("{:?} {:?}", ks, h.lines));
        d.s.call(Cmd::SwapHistory(h))?;
        if c.rng.chance(1, 3) {
            std::thread::sleep(Duration::from_micros(c.rng.range(1, 300) as u64));
        }
    }
    d.s.sync()?;
    d.s.drain()?;
    // browse the last history from the newest end
    let h = HistSpec { limit: None, interval: None, strip: true, lines: vec!["one".into(), "two".into()], ..ghist(&mut c.rng, false) };
    d.s.call(Cmd::SwapHistory(h.clone()))?;
    d.s.sync()?;
    d.s.type_bytes(b"\x07")?;
    d.s.sync()?;
    d.s.drain()?;
    d.s.call(Cmd::TakeCompCalls)?;
    d.ui.ed.clear();
    model_swap(&mut d, &h);
    d.keys(&[Key::Up, Key::Ctl(9), Key::Up, Key::Ctl(9), Key::Up, Key::Ctl(9), Key::Down, Key::Ctl(9), Key::Down, Key::Ctl(9)])?;
    check_all(&mut d)
}
/// A finished line is in the history by the time the program is given it.
fn s_seen(c: &mut Ctx) -> R<()> {
    let o = super::life::perturb(&mut c.rng, Opts::new(60, 24));
    let mut d = Drv::start(o)?;
    let (n, spin, swap) = (60, c.rng.chance(1, 2), *c.rng.pick(&[0, 1, 5]));
    d.s.send(&Cmd::SeenLines(n, spin, swap))?;
    let mut i = 0;
    while i < n {
        let k = c.rng.range(1, 4).min((n - i) as usize);
        let mut b = vec![];
        for _ in 0..k {
            b.extend_from_slice(format!("line {}\r", i).as_bytes());
            i += 1;
        }
        c.sig(&format!("{} {} {} {}", i, k, spin, swap));
        d.s.write_in(&b)?;
        if c.rng.chance(1, 2) {
            std::thread::sleep(Duration::from_micros(c.rng.range(1, 200) as u64));
        }
    }
    let Some(r) = d.s.recv(Duration::from_secs(20))? else {
        return Err(d.s.stuck("the lines typed were not delivered"));
    };
    c.count("lines_looked_up_at_once", r.num as u64);
    ensure!(r.lines.is_empty(), "delivered as finished lines, but not in the history then: {:?}", r.lines);
    Ok(())
}
pub fn c07() -> Check {
    Check {
        id: "C07",
        level: "exploration",
        rule: "history and editing keys, finished and discarded lines, prompts and replacements of the history (also while keys are waiting to be processed); line, cursor, display, responses, bells and stored lines are compared with the reference editor; a case is distinct by browsing position, histories and keys",
        assumptions: vec!["the completor is given the line being edited (checked by C20)"],
        scens: vec![scen("browse", 900, s_browse), scen("race", 400, s_race), scen("fast", 60, s_fast), scen("seen", 60, s_seen).racy()],
    }
}

// ------------------------------------------------------------------- C20

fn gans(r: &mut Rng, max: usize) -> CompAns {
    let tc = TextCfg { wide: true, zw: false, ctl: false, nl: false, ascii: false };
    match r.below(6) {
        0 => CompAns::None,
        5 => CompAns::Move(r.below(8)),
        1 => CompAns::Insert(String::new()),
        2 | 3 => {
            let n = r.range(1, 8);
            CompAns::Insert(gtext(r, n, tc))
        }
        _ => {
            let n = r.below(max);
            let t = gtext(r, n, tc);
            let k = match r.below(3) {
                0 => 0,
                1 => t.len(),
                _ => t.char_indices().map(|x| x.0).nth(r.below(n.max(1))).unwrap_or(0),
            };
            CompAns::Replace(t, k)
        }
    }
}
fn gact(r: &mut Rng, max: usize) -> CompAct {
    let a = gans(r, max);
    match r.below(8) {
        0 => CompAct::PrintThen(gtext(r, 6, TextCfg::SIMPLE), a),
        1 => CompAct::NoticeThen(gtext(r, 6, TextCfg::SIMPLE), 100_000, a),
        _ => CompAct::Ans(a),
    }
}
fn s_comp(c: &mut Ctx) -> R<()> {
    let (w, h) = (50, 24);
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(w, h)))?;
    let mut id = 0;
    for _ in 0..40 {
        match c.rng.below(8) {
            0 => {
                id += 1;
                let acts = (0..c.rng.below(6)).map(|_| gact(&mut c.rng, 40)).collect();
                d.cmd(Cmd::SetCompletor(id, acts))?;
                c.count("completors_set", 1);
            }
            1 if c.rng.chance(1, 3) => {
                d.cmd(Cmd::RemoveCompletor)?;
            }
            2 => {
                let x = next_cmd(&mut c.rng, &d.ui, UiCfg { styled: false, rich: false, notices: true, clear: false });
                if !matches!(x, Cmd::Prompt(_, false, _) | Cmd::RemovePrompt(false, _)) {
                    d.cmd(x)?;
                }
            }
            _ => {
                let kc = KeyCfg { wide: true, hist: true, ret: true, tab: true, ..KeyCfg::EDIT };
                let mut ks = vec![];
                for _ in 0..c.rng.range(1, 6) {
                    if c.rng.chance(2, 5) {
                        for _ in 0..*c.rng.pick(&[1, 1, 2, 3, 5]) {
                            ks.push(Key::Ctl(9));
                        }
                    } else {
                        ks.push(gkey(&mut c.rng, &kc));
                    }
                }
                if d.ui.ed.buf.len() > 200 {
                    ks.insert(0, Key::Ctl(7));
                }
                c.sig(&format!("{:?} {:?}", d.comp.as_ref().map(|x| x.1.front().cloned()), ks));
                c.count("keys", ks.len() as u64);
                d.keys(&ks)?;
            }
        }
        d.check()?;
        let n = d.check_calls()?;
        c.count("completor_calls", n as u64);
        d.check_resps()?;
    }
    Ok(())
}
/// Completors changed while presses are on their way.
fn s_swap(c: &mut Ctx) -> R<()> {
    let mut d = Drv::start(super::life::signals(&mut c.rng, Opts::new(60, 24)))?;
    d.cmd(Cmd::SetCompletor(1, vec![]))?;
    d.s.sync()?;
    let mut set_after: Vec<usize> = vec![];
    let mut pressed = 0;
    let mut last = 1;
    let mut got = vec![];
    for id in 2..14u32 {
        let n = c.rng.range(1, 5);
        for _ in 0..n {
            d.s.type_bytes(b"x\t")?;
        }
        pressed += n;
        if c.rng.chance(1, 3) {
            d.s.sync()?;
        }
        d.s.call(Cmd::SetCompletor(id, vec![]))?;
        // from here on, presses belong to this one
        set_after.push(pressed);
        last = id;
        got.extend(d.s.call(Cmd::TakeCompCalls)?.calls);
    }
    d.s.type_bytes(b"x\t")?;
    d.s.sync()?;
    got.extend(d.s.call(Cmd::TakeCompCalls)?.calls);
    pressed += 1;
    ensure!(got.len() == pressed, "{} completor calls for {} presses", got.len(), pressed);
    let mut prev = 0;
    for (i, g) in got.iter().enumerate() {
        ensure!(g.id >= prev, "a replaced completor was called again: {:?}", got);
        prev = g.id;
        ensure!(g.presses == 1 && g.input == "x".repeat(i + 1) && g.cursor == i + 1, "call {}: {:?}", i, g);
        // a press made after completor k was set never goes to an older one
        let k = 1 + set_after.iter().filter(|p| **p <= i).count() as u32;
        ensure!(g.id >= k, "press {} went to completor {}, which had been replaced by {}", i, g.id, k);
    }
    ensure!(prev == last, "the last press went to completor {} instead of {}", prev, last);
    c.sig(&format!("{:?}", got.iter().map(|g| g.id).collect::<Vec<_>>()));
    c.count("completor_calls", got.len() as u64);
    Ok(())
}
/// Calls with exactly one press per kind of key in between.
fn s_presses(c: &mut Ctx) -> R<()> {
    let mut d = probed(c, 60, 24)?;
    let mut keys: Vec<Key> = (0u8..32).filter(|n| ![9, 12, 26, 27].contains(n)).map(Key::Ctl).collect();
    keys.extend([Key::Up, Key::Down, Key::Left, Key::Right, Key::Home, Key::End, Key::Del, Key::Ctl(127), Key::Ch('x'), Key::Ch('é'), Key::Ch('日')]);
    let n = keys.len();
    for i in 0..n {
        let k = keys[(i + c.idx) % n];
        // (more than fits a byte, sometimes)
        let a = if c.rng.chance(1, 40) { c.rng.range(250, 520) } else { c.rng.range(1, 3) };
        let b = c.rng.range(1, 3);
        let mut ks = vec![Key::Ctl(9); a];
        ks.push(k);
        ks.extend(vec![Key::Ctl(9); b]);
        d.keys(&ks)?;
        d.s.sync()?;
        c.sig(&format!("{:?} {} {}", k, a, b));
        c.count("completor_calls", d.calls.len() as u64);
        check_all(&mut d)?;
    }
    Ok(())
}
pub fn c20() -> Check {
    Check {
        id: "C20",
        level: "exploration",
        rule: "completors with random answers (insertions, replacements, output) set and removed between random keys; every call's line, cursor and number of presses, the resulting line and the display are compared with the reference editor; a case is distinct by keys and answers",
        assumptions: vec!["replacement cursors are at character boundaries within the line"],
        scens: vec![scen("answers", 1200, s_comp), scen("swap", 200, s_swap), scen("presses", 12, s_presses)],
    }
}
