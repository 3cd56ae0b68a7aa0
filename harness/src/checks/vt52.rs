//! C21 VT52-type terminals.
use super::*;

/// A VT52-type terminal: TERM, size and palette.
pub fn opts52(r: &mut Rng) -> Opts {
    let wob = r.chance(1, 3);
    let mut o;
    let mono = r.chance(1, 4);
    let n;
    match r.below(4) {
        0 => {
            // Atari ST: number of colors from the size
            let (w, h, k) = *r.pick(&[(80, 50, 2), (80, 25, 4), (40, 25, 16), (33, 12, 2)]);
            o = Opts::new(w, h);
            o.term = r.pick(&["st52", "atarist", "atari_st", "stv52", "stv52pc"]).to_string();
            n = if mono { 2 } else { k };
        }
        1 => {
            let (w, h) = gsize(r);
            o = Opts::new(w, h);
            o.term = "vt52".into();
            n = 2;
        }
        _ => {
            let (w, h) = gsize(r);
            o = Opts::new(w, h);
            o.term = r.pick(&["tw52", "tt52", "at", "atari"]).to_string();
            n = if mono { 2 } else { 16 };
        }
    }
    if o.term != "vt52" && mono {
        o.term += r.pick(&["-m", "-x-m"]);
    } else if r.chance(1, 4) {
        o.term += "-x";
    }
    o.flavor = Flavor::Vt52;
    o.pal = (n, wob);
    if wob {
        o.env.push(("ATARI_WHITE_ON_BLACK".into(), r.pick(&["1", "yes", "true", "Y", "T"]).to_string()));
    } else if r.chance(1, 2) {
        o.env.push(("ATARI_WHITE_ON_BLACK".into(), r.pick(&["0", "no", "false", "N", "F"]).to_string()));
    }
    o
}
/// Keys as a VT52-type terminal sends them.
pub fn keys52(r: &mut Rng, ui: &Ui, n: usize, clear: bool) -> Vec<Key> {
    let kc = KeyCfg { wide: false, ascii: true, clear, ret: true, hist: true, resp: true, ..KeyCfg::EDIT };
    let mut u = ui.clone();
    let mut out = vec![];
    while out.len() < n {
        let k = gkey(r, &kc);
        if !matches!(k, Key::Ch(_) | Key::Ctl(_)) {
            continue;
        }
        let mut t = u.clone();
        t.notice = None;
        t.ed.key(k);
        if t.live().0.len() + 2 > ui.h {
            if n == 1 {
                break;
            }
            continue;
        }
        u = t;
        out.push(k);
    }
    out
}

fn walk(c: &mut Ctx, cfg: UiCfg, steps: usize) -> R<()> {
    let mut o = opts52(&mut c.rng);
    if !o.term.contains("st") && c.rng.chance(1, 12) {
        // (80 columns are assumed)
        o.w = 80;
        o.zero_size = true;
        c.count("sessions_of_unknown_size", 1);
    }
    c.count(&format!("sessions_{}_colors{}", o.pal.0, if o.pal.1 { "_white_on_black" } else { "" }), 1);
    c.sig(&format!("{} {:?}", o.term, o.env));
    let (w, h) = (o.w, o.h);
    let mut d = Drv::start(o)?;
    d.s.call(Cmd::SetClone)?;
    for _ in 0..steps {
        if c.rng.chance(1, 2) {
            for _ in 0..c.rng.range(1, 4) {
                let x = next_cmd(&mut c.rng, &d.ui, cfg);
                c.sig(&format!("{:?}", x));
                d.cmd(x)?;
                c.count("output_calls", 1);
            }
        } else {
            let n = *c.rng.pick(&[1, 1, 2, 3, 6, 12]);
            let ks = keys52(&mut c.rng, &d.ui, n, cfg.clear);
            c.sig(&format!("{:?}", ks));
            c.count("keys", ks.len() as u64);
            d.keys(&ks)?;
        }
        d.check()?;
    }
    d.check_resps()?;
    ensure!(d.s.vt.bells == d.bells, "{} bells rung instead of {}", d.s.vt.bells, d.bells);
    c.count("cells_compared", (d.s.stats.screens as usize * w * h) as u64);
    Ok(())
}
fn s_plain(c: &mut Ctx) -> R<()> {
    walk(c, UiCfg { styled: false, rich: false, notices: true, clear: true }, 30)
}
fn s_rich(c: &mut Ctx) -> R<()> {
    walk(c, UiCfg { styled: true, rich: true, notices: true, clear: true }, 40)
}

/// Any bytes as input; afterwards typing works.
fn s_bytes(c: &mut Ctx) -> R<()> {
    let o = opts52(&mut c.rng);
    let mut s = Sess::start(o)?;
    s.call(Cmd::New)?;
    s.sync()?;
    for round in 0..6 {
        let mut v = vec![];
        for _ in 0..c.rng.range(1, 40) {
            match c.rng.below(8) {
                0 => v.push(0x80 + c.rng.below(128) as u8),
                1 => v.push(0x1b),
                2 => v.extend([0x1b, 0x20 + c.rng.below(95) as u8]),
                3 => v.push(c.rng.below(32) as u8),
                4 => v.extend(b"\x1b/K"),
                5 => v.extend(&[0xff, 0xfe, 0x80]),
                _ => v.push(0x20 + c.rng.below(95) as u8),
            }
        }
        // (suspending is another property)
        v.retain(|b| *b != 0x1a);
        c.sig(&format!("{:?}", v));
        c.count("bytes", v.len() as u64);
        let k = c.rng.range(1, v.len());
        for part in v.chunks(k) {
            s.write_in(part)?;
            if c.rng.chance(1, 3) {
                s.sync()?;
            }
        }
        s.sync()?;
        std::thread::sleep(Duration::from_millis(50));
        s.sync()?;
        // (complete what may have been left incomplete, then start over)
        s.write_in(b"xx\x05\x15")?;
        s.sync()?;
        std::thread::sleep(Duration::from_millis(50));
        s.drain()?;
        let t = format!("ok{}", round);
        s.write_in(format!("{}\r", t).as_bytes())?;
        s.sync()?;
        let r = s.drain()?;
        ensure!(r.len() == 1 && r[0].0 == Resp::Input(t.clone()), "typing {:?} after arbitrary bytes gave {:?}", t, r);
        s.call(Cmd::Print(Via::Io, ML::plain("out")))?;
    }
    s.sync()?;
    ensure!(s.vt.unknown.is_empty() && s.vt.anomalies.is_empty(), "sent to the VT52: {:?} {:?}", s.vt.unknown, s.vt.anomalies);
    s.call(Cmd::Drop)?;
    Ok(())
}

/// Every byte value between two characters: bytes with the top bit set mean
/// nothing, the others mean what they mean elsewhere.
fn s_meta(c: &mut Ctx) -> R<()> {
    let mut o = Opts::new(40, 12);
    o.term = "vt52".into();
    o.flavor = Flavor::Vt52;
    o.pal = (2, false);
    let mut s = Sess::start(o)?;
    s.call(Cmd::New)?;
    s.sync()?;
    for b in (c.idx * 16..c.idx * 16 + 16).map(|x| (x % 256) as u8) {
        if b < 0x80 && !(0x20..0x7f).contains(&b) {
            continue;
        }
        let n = c.rng.range(1, 5);
        let mut v = b"A".to_vec();
        v.extend(std::iter::repeat(b).take(n));
        v.extend(b"Z\r");
        s.write_in(&v)?;
        s.sync()?;
        let r = s.drain()?;
        let want = if b >= 0x80 { "AZ".to_string() } else { format!("A{}Z", (b as char).to_string().repeat(n)) };
        ensure!(r.len() == 1 && r[0].0 == Resp::Input(want.clone()), "byte {:02x} {} times between A and Z gave {:?}", b, n, r);
        c.count("byte_values", 1);
        c.sig(&format!("{} {}", b, n));
    }
    // text with such bytes in between, in pieces
    for _ in 0..4 {
        let mut v = vec![];
        let mut want = String::new();
        for _ in 0..c.rng.range(1, 30) {
            if c.rng.chance(1, 3) {
                v.push(0x80 + c.rng.below(128) as u8);
            } else if c.rng.chance(1, 8) {
                // the terminal identifies itself, or a sequence without a
                // meaning (never split after the escape, where time matters)
                let k: &[u8] = *c.rng.pick(&[&b"\x1b/K"[..], b"\x1b/Z", b"\x1b/\x80", b"\x1bw", b"\x1b0"]);
                if !v.is_empty() && c.rng.chance(1, 2) {
                    s.write_in(&v)?;
                    s.sync()?;
                    v.clear();
                }
                v.extend(k);
            } else {
                let b = 0x20 + c.rng.below(95) as u8;
                v.push(b);
                want.push(b as char);
            }
        }
        v.push(13);
        c.sig(&format!("{:?}", v));
        let k = c.rng.range(1, v.len());
        let mut i = 0;
        while i < v.len() {
            let mut n = (i + k).min(v.len());
            while n < v.len() && v[n - 1] == 27 {
                n += 1;
            }
            s.write_in(&v[i..n])?;
            if c.rng.chance(1, 3) {
                s.sync()?;
            }
            i = n;
        }
        s.sync()?;
        let r = s.drain()?;
        ensure!(r.len() == 1 && r[0].0 == Resp::Input(want.clone()), "bytes {:x?} gave {:?} instead of {:?}", v, r, want);
    }
    s.call(Cmd::Drop)?;
    Ok(())
}

pub fn c21() -> Check {
    Check {
        id: "C21",
        level: "exploration",
        rule: "random walks of output calls and keys on every VT52-type TERM, palette and color arrangement; after every batch the emulated VT52 screen with its palette indices, the cursor and its visibility are compared with the reference layout, any sequence that is not VT52 is an alarm; random and exhaustive single input bytes, after which typing must work. Distinct: by terminal, calls, keys and bytes",
        assumptions: vec!["terminal behaviour as in the emulator", "palette tables as documented in the code"],
        scens: vec![
            scen("meta", 200, s_meta),
            scen("plain", 800, s_plain),
            scen("rich", 1800, s_rich),
            scen("bytes", 150, s_bytes),
        ],
    }
}
