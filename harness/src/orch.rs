//! Runs the scenarios of a check: case generation from seeds, parallel
//! workers, confirmation of findings, replay files, evidence.
use crate::rng::*;
use crate::sess::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock, RwLock};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub idx: usize,
    pub counters: BTreeMap<String, u64>,
    pub sigs: Vec<u64>,
    pub samples: Vec<String>,
    pub nontrivial: bool,
}
impl Ctx {
    fn new(seed: u64, idx: usize, thorough: bool) -> Ctx {
        Ctx {
            rng: Rng::new(seed),
            thorough,
            idx,
            counters: BTreeMap::new(),
            sigs: vec![],
            samples: vec![],
            nontrivial: true,
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    /// Note a distinct thing that was observed.
    pub fn sig(&mut self, s: &str) {
        self.sigs.push(hash_bytes(s.as_bytes()));
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 2 && self.idx < 3 {
            self.samples.push(trunc(&f(), 1500));
        }
    }
}

pub type ScenFn = fn(&mut Ctx) -> R<()>;
#[derive(Clone)]
pub struct Scen {
    pub name: &'static str,
    pub n: usize,
    pub f: ScenFn,
    /// outcomes depend on the interleaving: a violation need not happen again
    pub racy: bool,
    /// timing matters: run with few others
    pub solo: bool,
    /// runs library code inside the monitor process
    pub inproc: bool,
    /// cases numbered below `n` are all there are
    pub finite: bool,
}
pub fn scen(name: &'static str, n: usize, f: ScenFn) -> Scen {
    Scen { name, n, f, racy: false, solo: false, inproc: false, finite: false }
}
impl Scen {
    pub fn racy(mut self) -> Scen {
        self.racy = true;
        self
    }
    pub fn solo(mut self) -> Scen {
        self.solo = true;
        self
    }
    pub fn inproc(mut self) -> Scen {
        self.inproc = true;
        self
    }
    pub fn finite(mut self) -> Scen {
        self.finite = true;
        self
    }
}
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub scens: Vec<Scen>,
}

/// Compile something to preload, once.
pub fn shared_object(name: &'static str, code: &str) -> Result<PathBuf, Fail> {
    static S: Mutex<BTreeMap<&'static str, Result<PathBuf, String>>> = Mutex::new(BTreeMap::new());
    let make = || {
        let src = scratch().join(format!("{}.c", name));
        let so = scratch().join(format!("{}.so", name));
        std::fs::write(&src, code).map_err(|e| e.to_string())?;
        let o = std::process::Command::new("cc")
            .args(["-shared", "-fPIC", "-O1", "-o"])
            .arg(&so)
            .arg(&src)
            .arg("-ldl")
            .output()
            .map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(String::from_utf8_lossy(&o.stderr).into());
        }
        Ok(so)
    };
    let mut s = S.lock().unwrap();
    s.entry(name).or_insert_with(make).clone().map_err(|e| Fail::Infra(format!("compiling {}: {}", name, e)))
}

pub fn scratch() -> &'static PathBuf {
    static S: OnceLock<PathBuf> = OnceLock::new();
    S.get_or_init(|| {
        let p = PathBuf::from(format!("/tmp/lisomon.{}", std::process::id()));
        let _ = std::fs::create_dir_all(&p);
        p
    })
}

thread_local! {
    pub static TRACES: RefCell<Vec<Vec<String>>> = RefCell::new(vec![]);
    pub static STATS: RefCell<Stats> = RefCell::new(Stats::default());
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Replay {
    pub property: String,
    pub scenario: String,
    pub idx: usize,
    pub seed: u64,
    pub thorough: bool,
    pub message: String,
    pub trace: Vec<Vec<String>>,
}

struct Out {
    fail: Option<Fail>,
    ctx: Ctx,
    trace: Vec<Vec<String>>,
    stats: Stats,
}

fn run_case(s: &Scen, seed: u64, idx: usize, thorough: bool) -> Out {
    TRACES.with(|t| t.borrow_mut().clear());
    STATS.with(|t| *t.borrow_mut() = Stats::default());
    let mut ctx = Ctx::new(seed, idx, thorough);
    let f = s.f;
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if s.inproc && !m.contains("src/checks") && !m.contains("src/model") {
                Some(Fail::Viol(format!("panic: {}", m)))
            } else {
                Some(Fail::Infra(format!("harness panic: {}", m)))
            }
        }
    };
    Out {
        fail,
        ctx,
        trace: TRACES.with(|t| std::mem::take(&mut *t.borrow_mut())),
        stats: STATS.with(|t| t.borrow().clone()),
    }
}

struct Shared {
    stop: AtomicBool,
    next: AtomicUsize,
    found: Mutex<Vec<Replay>>,
    inconclusive: Mutex<Vec<String>>,
    ninc: AtomicU64,
    known_hits: Mutex<Vec<String>>,
    evals: AtomicU64,
    sigs: Mutex<HashSet<u64>>,
    case_sigs: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<serde_json::Value>>,
    per_scen: Mutex<BTreeMap<String, (u64, f64)>>,
    gate: RwLock<()>,
    /// tid, start, description of what each worker is doing
    busy: Mutex<BTreeMap<usize, (i32, Instant, f64, String, Replay)>>,
}

fn thread_cpu(tid: i32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/schedstat", tid)).unwrap_or_default();
    s.split(' ').next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) / 1e9
}
fn rss_gb() -> f64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) * 4096.0 / 1e9
}

fn merge(sh: &Shared, s: &Scen, o: &Out, secs: f64) {
    sh.evals.fetch_add(1, Ordering::SeqCst);
    if o.ctx.nontrivial {
        let mut h = hash_bytes(s.name.as_bytes());
        if o.ctx.sigs.is_empty() {
            h = mix(h ^ o.ctx.idx as u64);
        }
        for x in &o.ctx.sigs {
            h = mix(h ^ x);
        }
        sh.case_sigs.lock().unwrap().insert(h);
    }
    sh.sigs.lock().unwrap().extend(o.ctx.sigs.iter().map(|x| mix(x ^ hash_bytes(s.name.as_bytes()))));
    let mut c = sh.counters.lock().unwrap();
    for (k, v) in &o.ctx.counters {
        *c.entry(k.clone()).or_default() += v;
    }
    for (k, v) in [
        ("quiescence_waits", o.stats.syncs),
        ("api_calls", o.stats.cmds),
        ("signals_sent", o.stats.signals),
        ("bytes_typed", o.stats.typed),
        ("screens_compared", o.stats.screens),
        ("responses_read", o.stats.resps),
        ("sessions_with_delays", o.stats.chaos),
    ] {
        if v > 0 {
            *c.entry(k.into()).or_default() += v;
        }
    }
    drop(c);
    let mut p = sh.per_scen.lock().unwrap();
    let e = p.entry(s.name.to_string()).or_default();
    e.0 += 1;
    e.1 += secs;
    drop(p);
    let mut sm = sh.samples.lock().unwrap();
    if sm.len() < 12 {
        for x in &o.ctx.samples {
            sm.push(serde_json::json!({"scenario": s.name, "case": o.ctx.idx, "what": x}));
        }
        if o.ctx.samples.is_empty() && o.ctx.idx == 0 && !o.trace.is_empty() {
            let t: Vec<String> =
                o.trace[0].iter().take(12).map(|x| trunc(x, 160)).collect();
            sm.push(serde_json::json!({"scenario": s.name, "case": o.ctx.idx, "what": t}));
        }
    }
}

fn known() -> Vec<(String, String, String, String)> {
    // known: property=X scenario=Y match="..." what
    let mut v = vec![];
    let t = std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let f: Vec<&str> = r.splitn(4, " | ").collect();
            if f.len() == 4 {
                v.push((
                    f[0].trim_start_matches("property=").into(),
                    f[1].trim_start_matches("scenario=").into(),
                    f[2].trim_start_matches("match=").into(),
                    f[3].into(),
                ));
            }
        }
    }
    v
}

fn msg(f: &Fail) -> String {
    match f {
        Fail::Viol(s) | Fail::Soft(s) | Fail::Infra(s) => s.clone(),
    }
}

fn worker(w: usize, sh: &Shared, list: &[(Scen, usize, u64)], end: Instant, check: &str, thorough: bool) {
    let tid = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
    loop {
        if sh.stop.load(Ordering::SeqCst) || Instant::now() > end {
            return;
        }
        let i = sh.next.fetch_add(1, Ordering::SeqCst);
        let Some((s, idx, seed)) = list.get(i) else { return };
        let rp = Replay {
            property: check.into(),
            scenario: s.name.into(),
            idx: *idx,
            seed: *seed,
            thorough,
            message: String::new(),
            trace: vec![],
        };
        let set_busy = || {
            sh.busy.lock().unwrap().insert(
                w,
                (tid, Instant::now(), thread_cpu(tid), s.name.into(), rp.clone()),
            );
        };
        if s.inproc {
            set_busy();
        }
        let t = Instant::now();
        let g = sh.gate.read().unwrap();
        let o = run_case(s, *seed, *idx, thorough);
        drop(g);
        if std::env::var("LISOMON_DEBUG").is_ok() {
            if let Some(f) = &o.fail {
                let k = match f {
                    Fail::Viol(_) => "viol",
                    Fail::Soft(_) => "soft",
                    Fail::Infra(_) => "infra",
                };
                let m = msg(f);
                eprintln!("[debug] {} case {} seed {}: {} {}", s.name, idx, seed, k, trunc(m.lines().next().unwrap_or(""), 300));
            }
        }
        let mut report: Option<(String, Vec<Vec<String>>)> = None;
        match &o.fail {
            None => merge(sh, s, &o, t.elapsed().as_secs_f64()),
            Some(Fail::Viol(m)) => {
                // run it again, alone
                let mut again = None;
                let g = sh.gate.write().unwrap();
                for _ in 0..3 {
                    if sh.stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let o2 = run_case(s, *seed, *idx, thorough);
                    if let Some(f @ (Fail::Viol(_) | Fail::Soft(_))) = &o2.fail {
                        again = Some((msg(f), o2.trace.clone()));
                        break;
                    }
                }
                drop(g);
                if again.is_some() {
                    report = again;
                } else if s.racy {
                    report = Some((format!("(depends on timing) {}", m), o.trace.clone()));
                } else {
                    sh.ninc.fetch_add(1, Ordering::SeqCst);
                    sh.inconclusive.lock().unwrap().push(format!(
                        "{} case {} seed {}: seen once, not again: {}",
                        s.name,
                        idx,
                        seed,
                        trunc(m, 3000)
                    ));
                }
            }
            Some(Fail::Soft(m)) => {
                let mut hits = 0;
                let mut last = None;
                let g = sh.gate.write().unwrap();
                for _ in 0..3 {
                    if sh.stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let o2 = run_case(s, *seed, *idx, thorough);
                    if let Some(f @ (Fail::Viol(_) | Fail::Soft(_))) = &o2.fail {
                        hits += 1;
                        last = Some((msg(f), o2.trace.clone()));
                    }
                    if hits >= 2 {
                        break;
                    }
                }
                drop(g);
                if hits >= 2 {
                    report = last;
                } else {
                    sh.ninc.fetch_add(1, Ordering::SeqCst);
                    sh.inconclusive.lock().unwrap().push(format!(
                        "{} case {} seed {}: not confirmed ({} of 3): {}",
                        s.name,
                        idx,
                        seed,
                        hits,
                        trunc(m, 3000)
                    ));
                }
            }
            Some(Fail::Infra(m)) => {
                sh.ninc.fetch_add(1, Ordering::SeqCst);
                sh.inconclusive.lock().unwrap().push(format!(
                    "{} case {} seed {}: harness: {}",
                    s.name,
                    idx,
                    seed,
                    trunc(m, 2000)
                ));
            }
        }
        sh.busy.lock().unwrap().remove(&w);
        if let Some((m, trace)) = report {
            let mut is_known = false;
            for (p, sc, ma, what) in known() {
                if p == check && sc == s.name && m.contains(&ma) {
                    is_known = true;
                    let l = format!("KNOWN-FINDING: property={} {}", p, what);
                    let mut k = sh.known_hits.lock().unwrap();
                    if !k.contains(&l) {
                        k.push(l);
                    }
                }
            }
            if is_known {
                continue;
            }
            sh.found.lock().unwrap().push(Replay { message: m, trace, ..rp });
            sh.stop.store(true, Ordering::SeqCst);
            return;
        }
    }
}

pub fn write_replay(r: &Replay) -> PathBuf {
    let dir = std::env::var("LISOMON_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    let p = PathBuf::from(dir).join(format!("{}-{}-{}.json", r.property, r.scenario, r.seed));
    let _ = std::fs::write(&p, serde_json::to_vec_pretty(r).unwrap());
    p
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

fn raise_limits() {
    unsafe {
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut r);
        r.rlim_cur = r.rlim_max.min(65536);
        libc::setrlimit(libc::RLIMIT_NOFILE, &r);
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        libc::signal(libc::SIGHUP, libc::SIG_IGN);
    }
}

pub fn run(c: Check) -> i32 {
    raise_limits();
    install_panic_hook();
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let budget: f64 = std::env::var("LISOMON_BUDGET")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if thorough { 480.0 } else { 30.0 });
    let only = std::env::var("LISOMON_ONLY").ok();
    let factor = if thorough { 60 } else { 4 };
    let workers: usize = std::env::var("LISOMON_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let sh = Shared {
        stop: AtomicBool::new(false),
        next: AtomicUsize::new(0),
        found: Mutex::new(vec![]),
        inconclusive: Mutex::new(vec![]),
        ninc: AtomicU64::new(0),
        known_hits: Mutex::new(vec![]),
        evals: AtomicU64::new(0),
        sigs: Mutex::new(HashSet::new()),
        case_sigs: Mutex::new(HashSet::new()),
        counters: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(vec![]),
        per_scen: Mutex::new(BTreeMap::new()),
        gate: RwLock::new(()),
        busy: Mutex::new(BTreeMap::new()),
    };
    for phase in [false, true] {
        let mut list: Vec<(f64, Scen, usize, u64)> = vec![];
        for s in &c.scens {
            if s.solo != phase {
                continue;
            }
            if let Some(o) = &only {
                if o != s.name {
                    continue;
                }
            }
            let n = if s.finite { s.n } else { s.n * factor };
            for i in 0..n {
                let cs = mix(mix(seed ^ hash_bytes(c.id.as_bytes())) ^ hash_bytes(s.name.as_bytes()))
                    .wrapping_add(mix(i as u64));
                // spread all scenarios evenly over the run
                let pos = if s.finite && thorough { 0.0 } else { (i as f64 + 0.5) / n as f64 };
                list.push((pos, s.clone(), i, cs));
            }
        }
        if list.is_empty() {
            continue;
        }
        list.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let list: Vec<_> = list.into_iter().map(|(_, s, i, x)| (s, i, x)).collect();
        let has_both = c.scens.iter().any(|s| s.solo) && c.scens.iter().any(|s| !s.solo);
        let share = if !has_both { 1.0 } else if phase { 0.3 } else { 0.7 };
        let end = Instant::now() + Duration::from_secs_f64(budget * share);
        sh.next.store(0, Ordering::SeqCst);
        let nw = if phase { workers.min(3) } else { workers };
        let done = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..nw {
                let (sh, list) = (&sh, &list);
                hs.push(sc.spawn(move || worker(w, sh, list, end, c.id, thorough)));
            }
            let (sh2, d2) = (&sh, &done);
            sc.spawn(move || {
                // watch for library code that does not come back
                while !d2.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(200));
                    let b = sh2.busy.lock().unwrap();
                    let big = rss_gb() > 8.0;
                    for (_, (tid, t, cpu, name, rp)) in b.iter() {
                        let used = thread_cpu(*tid) - cpu;
                        if (used > 60.0) || (big && t.elapsed() > Duration::from_secs(2)) {
                            let mut r = rp.clone();
                            r.message = format!(
                                "{}: the library did not return ({} s of CPU time, {} GB)",
                                name,
                                used,
                                rss_gb()
                            );
                            let p = write_replay(&r);
                            println!("{}", r.message);
                            println!("VIOLATION property={} replay={}", r.property, p.display());
                            let _ = std::fs::remove_dir_all(scratch());
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Ordering::SeqCst);
        });
        if sh.stop.load(Ordering::SeqCst) {
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let found = sh.found.lock().unwrap().clone();
    let evals = sh.evals.load(Ordering::SeqCst);
    let inc = sh.inconclusive.lock().unwrap().clone();
    let distinct = sh.case_sigs.lock().unwrap().len() as u64;
    let steps = sh.sigs.lock().unwrap().len() as u64;
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), evals.into());
    cov.insert(
        "distinct_nontrivial".into(),
        distinct.into(),
    );
    if steps > 0 {
        cov.insert("distinct_observations".into(), steps.into());
    }
    cov.insert("rule".into(), c.rule.into());
    cov.insert("samples".into(), sh.samples.lock().unwrap().clone().into());
    for (k, v) in sh.counters.lock().unwrap().iter() {
        cov.insert(k.clone(), (*v).into());
    }
    let per: serde_json::Map<String, serde_json::Value> = sh
        .per_scen
        .lock()
        .unwrap()
        .iter()
        .map(|(k, v)| (k.clone(), serde_json::json!({"cases": v.0, "seconds": (v.1*100.0).round()/100.0})))
        .collect();
    cov.insert("scenarios".into(), per.into());
    cov.insert("inconclusive".into(), inc.len().into());
    cov.insert(
        "inconclusive_details".into(),
        inc.iter().take(5).cloned().collect::<Vec<_>>().into(),
    );
    let ev = serde_json::json!({
        "property": c.id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": c.level,
        "coverage": cov,
        "assumptions": c.assumptions,
        "wall_s": (wall*100.0).round()/100.0,
        "violations": found.len(),
    });
    let evdir = std::env::var("LISOMON_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&evdir);
    let _ = std::fs::write(
        format!("{}/{}.json", evdir, c.id),
        serde_json::to_vec_pretty(&ev).unwrap(),
    );
    let _ = std::fs::remove_dir_all(scratch());
    for k in sh.known_hits.lock().unwrap().iter() {
        println!("{}", k);
    }
    for i in inc.iter().take(5) {
        println!("inconclusive: {}", i);
    }
    if !found.is_empty() {
        for r in &found {
            let p = write_replay(r);
            println!("{} case {}: {}", r.scenario, r.idx, r.message);
            println!("VIOLATION property={} replay={}", r.property, p.display());
        }
        return 1;
    }
    println!(
        "{}: held on {} cases ({} distinct), {} inconclusive, {:.1} s",
        c.id,
        evals,
        distinct,
        inc.len(),
        wall
    );
    if evals == 0 {
        println!("nothing was observed");
        return 2;
    }
    0
}

pub fn replay(r: Replay, c: Check) -> i32 {
    raise_limits();
    install_panic_hook();
    let Some(s) = c.scens.iter().find(|s| s.name == r.scenario) else {
        println!("no such scenario");
        return 2;
    };
    let n = if s.racy { 30 } else { 3 };
    for i in 0..n {
        let o = run_case(s, r.seed, r.idx, r.thorough);
        match o.fail {
            None => println!("run {}: held", i),
            Some(f @ (Fail::Viol(_) | Fail::Soft(_))) => {
                for t in &o.trace {
                    for l in t {
                        println!("  {}", trunc(l, 300));
                    }
                    println!("  --");
                }
                println!("{}", msg(&f));
                println!("VIOLATION property={} replay=(this)", r.property);
                let _ = std::fs::remove_dir_all(scratch());
                return 1;
            }
            Some(Fail::Infra(m)) => println!("run {}: harness: {}", i, m),
        }
    }
    let _ = std::fs::remove_dir_all(scratch());
    0
}
