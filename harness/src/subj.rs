//! The subject: a program that uses liso under the direction of the monitor.
//! It runs in a process of its own, with its terminal (or pipes) on fds 0-2,
//! commands on fd 3 and replies on fd 4 (JSON lines).
use crate::model::*;
use liso::{Completion, Completor, InputOutput, OutputOnly, Response};
use serde::{Deserialize, Serialize};
use std::fs::File;
use std::io::{BufRead, BufReader, Read, Write};
use std::num::{NonZeroU32, NonZeroUsize};
use std::os::fd::{AsRawFd, FromRawFd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dur {
    Ms(u64),
    Max,
}
impl Dur {
    fn get(&self) -> Duration {
        match self {
            Dur::Ms(x) => Duration::from_millis(*x),
            Dur::Max => Duration::MAX,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Via {
    Io,
    Clone,
    Global,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ReadMode {
    Try,
    Timeout(u64),
    Deadline(u64),
    /// deadline in the past
    PastDeadline,
    Blocking,
    Async,
    AsyncTimeout(u64),
    /// the old names
    OldBlocking,
    OldAsync,
}

/// What a suspended function does.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SAct {
    Out(String),
    /// append to the log
    Log(String),
    /// record terminal settings of fd 0 in the log
    Termios,
    Gate(u32),
    Print(String),
    Panic(String),
    Sleep(u64),
}

/// What a printing thread does.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    Print(ML),
    Wrap(ML),
    Echo(ML),
    GlobalPrint(ML),
    Status(Option<ML>),
    Prompt(ML, bool, bool),
    Notice(ML, u64),
    Bell,
    Custom(u64),
    CustomBox(u64),
    SleepUs(u64),
    Spin(u32),
    Yield,
    Signal(u32),
    WaitSignal(u32),
    Suspend(Vec<SAct>),
    Panic(String),
    Stderr(String),
    /// try to create a second instance, expecting a panic
    TryNew,
    /// keep printing (or writing to standard error) faster than anybody can
    /// keep up with, until that panics, the gate is opened, or so many lines
    /// were written
    Storm { err: bool, gate: u32, max: u32 },
    /// print tagged lines until that panics, or the number is reached
    PrintUntilDead(String, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistSpec {
    pub lines: Vec<String>,
    pub limit: Option<usize>,
    pub strip: bool,
    pub file: Option<String>,
    pub interval: Option<usize>,
    pub failing_autosave: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CompAct {
    Ans(CompAns),
    PrintThen(String, CompAns),
    NoticeThen(String, u64, CompAns),
    Panic(String),
    /// keep the output thread waiting
    Gate(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cmd {
    Hello,
    New,
    Drop,
    BlockingDie,
    DieAsync,
    /// the asynchronous call is given up after so many microseconds (the
    /// instance is dropped then)
    DieCancel(u64),
    /// a function run by the library keeps it busy for so many milliseconds
    /// while it is shut down; `flag`: it was over afterwards
    HeldDie(Box<Cmd>, u64),
    Forget,
    Print(Via, ML),
    Wrap(Via, ML),
    Echo(ML),
    Status(Option<ML>),
    RemoveStatus,
    Prompt(ML, bool, bool),
    RemovePrompt(bool, bool),
    Notice(ML, Dur),
    Bell,
    Custom(u64),
    CustomBox(u64),
    /// so many custom values at once
    Customs(u32),
    /// try_read until nothing is there; stops after a Dead
    Drain,
    Read(ReadMode),
    /// one read after the other; `lines` gets what each one took: index of the
    /// read, microseconds, whether there was a response
    ReadSeq(Vec<ReadMode>),
    /// answers are used up in order, then None
    SetCompletor(u32, Vec<CompAct>),
    RemoveCompletor,
    TakeCompCalls,
    SwapHistory(HistSpec),
    HistoryLines,
    /// read so many finished lines (all different), polling or blocking, and
    /// look for each in the history at once; sometimes replace the history
    /// first. `lines` gets those that were not there, `num` is how many there
    /// were
    SeenLines(u32, bool, u32),
    Suspend(Vec<SAct>),
    OpenGate(u32),
    /// wait until a gate has been opened (true) or the time is up
    AwaitGate(u32, u64),
    TakeLog,
    SetClone,
    DropClone,
    Spawn(Vec<Vec<TOp>>, bool),
    Join,
    /// the same thread programs, but only wait so long; true if finished
    JoinFor(u64),
    Panic(String),
    PanicThread(String),
    SetHook(String),
    ReadStdinLine,
    ReadStdinBytes(usize),
    StdoutWrite(String),
    StderrWrite(Vec<u8>),
    /// start a child process that writes a line to standard error (true: this
    /// one's) and then sleeps for so many milliseconds
    Child(String, bool, u64),
    /// wait until the child processes have ended
    ChildWait,
    SigHupDisposition,
    InstallHup,
    /// from now on, only so many more descriptors can be had (None: the
    /// normal number again)
    Starve(Option<u32>),
    FdIds,
    GlobalPrintMacro(String),
    Sleep(u64),
    ProcessHistory(Vec<HOp>, HistSpec),
    Exit(i32),
    /// create and drop instances n times with thread programs in between
    Cycle(u32, bool),
    /// concurrently: drop the instance after a delay while another thread
    /// tries to create a new one and a third prints through the global sender
    RaceRecreate(u64, u64),
    /// read until `Dead` (which must come), then print at once: panicked?
    DeadThenPrint(ReadMode),
    /// so many times: create, shut down, print through a clone; `num` is how
    /// often that did not panic
    ClonePrints(u32),
    /// print through the global function, if there is one: panicked?
    GlobalTry(String),
    /// a thread that opens files and looks what descriptors it gets
    FdGuard(bool),
    /// handlers and flags of all signals
    Dispositions,
    /// threads panicking at the same time
    PanicMany(u32, String),
    /// what fds 0 to 2 are
    Fds012,
    /// create instances from several threads at once; how many succeeded
    RaceNew(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    Add(String),
    Interval(Option<usize>),
    Limit(Option<usize>),
    Strip(bool),
    Load(String),
    Drop,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct CompCall {
    pub id: u32,
    pub input: String,
    pub cursor: usize,
    pub presses: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct ThreadRes {
    pub done: usize,
    pub panic: Option<String>,
    pub notes: Vec<String>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Reply {
    pub panic: Option<String>,
    pub resps: Vec<(Resp, u8)>,
    pub lines: Vec<String>,
    pub calls: Vec<CompCall>,
    pub threads: Vec<ThreadRes>,
    pub num: i64,
    pub us: u64,
    pub flag: bool,
}

#[derive(Default)]
struct Gates {
    open: Mutex<std::collections::HashSet<u32>>,
    cv: Condvar,
}
impl Gates {
    fn is_open(&self, n: u32) -> bool {
        self.open.lock().unwrap().contains(&n)
    }
    fn wait(&self, n: u32) {
        let mut g = self.open.lock().unwrap();
        while !g.contains(&n) {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn open(&self, n: u32) {
        self.open.lock().unwrap().insert(n);
        self.cv.notify_all();
    }
}

/// A custom value that would notice being duplicated or torn.
pub struct Token {
    pub n: u64,
    pub check: u64,
}
impl Token {
    fn new(n: u64) -> Token {
        Token { n, check: crate::rng::mix(n) }
    }
}

fn conv(r: Response) -> (Resp, u8) {
    let code = r.as_unknown();
    let x = match r {
        Response::Input(s) => Resp::Input(s),
        Response::Dead => Resp::Dead,
        Response::Quit => Resp::Quit,
        Response::Discarded(s) => Resp::Discarded(s),
        Response::Finish => Resp::Finish,
        Response::Info => Resp::Info,
        Response::Break => Resp::Break,
        Response::Escape => Resp::Escape,
        Response::Swap => Resp::Swap,
        Response::Custom(b) => match b.downcast::<Token>() {
            Ok(t) if t.check == crate::rng::mix(t.n) => Resp::Custom(t.n),
            _ => Resp::BadCustom,
        },
        Response::Unknown(x) => Resp::Unknown(x),
        other => Resp::Other(format!("{:?}", other)),
    };
    (x, code)
}

fn read_one(io: &mut InputOutput, m: &ReadMode) -> (Option<(Resp, u8)>, u64) {
    let rt = || tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let rt = match m {
        ReadMode::Async | ReadMode::AsyncTimeout(_) | ReadMode::OldAsync => Some(rt()),
        _ => None,
    };
    let t = Instant::now();
    #[allow(deprecated)]
    let r = match m {
        ReadMode::Try => io.try_read(),
        ReadMode::Timeout(u64::MAX) => io.read_timeout(Duration::MAX),
        ReadMode::Timeout(us) if *us == u64::MAX - 1 => io.read_timeout(Duration::from_secs(u64::MAX)),
        ReadMode::Timeout(us) => io.read_timeout(Duration::from_micros(*us)),
        ReadMode::Deadline(us) => {
            let d = Duration::from_micros(*us);
            io.read_deadline(t.checked_add(d).unwrap_or(t + Duration::from_secs(1 << 32)))
        }
        ReadMode::PastDeadline => {
            io.read_deadline(t.checked_sub(Duration::from_millis(5)).unwrap_or(t))
        }
        ReadMode::Blocking => Some(io.read_blocking()),
        ReadMode::OldBlocking => Some(io.blocking_read()),
        ReadMode::Async => Some(rt.unwrap().block_on(io.read_async())),
        ReadMode::OldAsync => Some(rt.unwrap().block_on(io.read())),
        ReadMode::AsyncTimeout(us) => rt.unwrap().block_on(async {
            tokio::time::timeout(Duration::from_micros(*us), io.read_async()).await.ok()
        }),
    };
    let us = t.elapsed().as_micros() as u64;
    (r.map(conv), us)
}

struct RecCompletor {
    id: u32,
    acts: Vec<CompAct>,
    calls: Arc<Mutex<Vec<CompCall>>>,
    gates: Arc<Gates>,
}
impl Completor for RecCompletor {
    fn complete(
        &mut self,
        output: &liso::Output,
        input: &str,
        cursor: usize,
        presses: NonZeroU32,
    ) -> Option<Completion> {
        self.calls.lock().unwrap().push(CompCall {
            id: self.id,
            input: input.to_owned(),
            cursor,
            presses: presses.get(),
        });
        let act = if self.acts.is_empty() {
            CompAct::Ans(CompAns::None)
        } else {
            self.acts.remove(0)
        };
        let ans = match act {
            CompAct::Ans(a) => a,
            CompAct::PrintThen(s, a) => {
                output.println(s);
                a
            }
            CompAct::NoticeThen(s, ms, a) => {
                output.notice(s, Duration::from_millis(ms));
                a
            }
            CompAct::Gate(n) => {
                self.gates.wait(n);
                CompAns::None
            }
            CompAct::Panic(s) => panic!("{}", s),
        };
        match ans {
            CompAns::None => None,
            CompAns::Insert(text) => Some(Completion::InsertAtCursor { text }),
            CompAns::Move(n) => {
                let at: Vec<usize> = input.char_indices().map(|x| x.0).chain([input.len()]).collect();
                Some(Completion::ReplaceWholeLine { new_line: input.into(), new_cursor: at[n % at.len()] })
            }
            CompAns::Replace(new_line, new_cursor) => {
                Some(Completion::ReplaceWholeLine { new_line, new_cursor })
            }
        }
    }
}

pub fn termios_text(fd: i32) -> String {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        if libc::tcgetattr(fd, &mut t) != 0 {
            return "tcgetattr failed".into();
        }
        format!("{:x} {:x} {:x} {:x} {:?}", t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc)
    }
}

pub fn make_history(h: &HistSpec) -> std::io::Result<liso::History> {
    let mut r = match &h.file {
        Some(f) => liso::History::from_file(f)?,
        None => liso::History::new(),
    };
    r.set_limit(None).set_strip_duplicates(false);
    for l in &h.lines {
        r.add_line(l.clone())?;
    }
    r.set_limit(h.limit.and_then(NonZeroUsize::new));
    r.set_strip_duplicates(h.strip);
    if h.failing_autosave {
        r.set_autosave_handler(Some(Box::new(|_| {
            Err(std::io::Error::new(std::io::ErrorKind::Other, "planned failure"))
        })));
    }
    r.set_autosave_interval(h.interval.and_then(NonZeroUsize::new));
    Ok(r)
}

struct Subj {
    io: Option<InputOutput>,
    clone: Option<OutputOnly>,
    gates: Arc<Gates>,
    log: Arc<Mutex<Vec<String>>>,
    calls: Arc<Mutex<Vec<CompCall>>>,
    joins: Vec<std::thread::JoinHandle<ThreadRes>>,
    guard: Option<std::thread::JoinHandle<(Vec<String>, u64)>>,
    nofile: Option<libc::rlimit>,
    children: Vec<std::process::Child>,
    fillers: Vec<i32>,
}

fn sfun(
    acts: Vec<SAct>,
    gates: Arc<Gates>,
    log: Arc<Mutex<Vec<String>>>,
    out: OutputOnly,
) -> impl FnMut() + Send + 'static {
    move || {
        for a in &acts {
            match a {
                SAct::Out(s) => {
                    let mut o = std::io::stdout();
                    let _ = o.write_all(s.as_bytes());
                    let _ = o.flush();
                }
                SAct::Log(s) => log.lock().unwrap().push(s.clone()),
                SAct::Termios => log.lock().unwrap().push(format!("termios {}", termios_text(0))),
                SAct::Gate(n) => gates.wait(*n),
                SAct::Print(s) => out.println(s.clone()),
                SAct::Panic(s) => panic!("{}", s),
                SAct::Sleep(ms) => std::thread::sleep(Duration::from_millis(*ms)),
            }
        }
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn run_prog(
    prog: Vec<TOp>,
    out: OutputOnly,
    gates: Arc<Gates>,
    log: Arc<Mutex<Vec<String>>>,
) -> ThreadRes {
    let mut res = ThreadRes::default();
    for op in prog {
        let notes = &mut res.notes;
        let r = catch_unwind(AssertUnwindSafe(|| match op {
            TOp::Print(l) => out.println(l.to_line()),
            TOp::Wrap(l) => out.wrapln(l.to_line()),
            TOp::Echo(l) => out.echoln(l.to_line()),
            TOp::GlobalPrint(l) => {
                #[cfg(feature = "global")]
                liso::output().println(l.to_line());
                #[cfg(not(feature = "global"))]
                out.println(l.to_line());
            }
            TOp::Status(s) => out.status(s.map(|x| x.to_line())),
            TOp::Prompt(l, a, c) => out.prompt(l.to_line(), a, c),
            TOp::Notice(l, ms) => out.notice(l.to_line(), Duration::from_millis(ms)),
            TOp::Bell => out.bell(),
            TOp::Custom(n) => out.send_custom(Token::new(n)),
            TOp::CustomBox(n) => out.send_custom_box(Box::new(Token::new(n))),
            TOp::SleepUs(n) => std::thread::sleep(Duration::from_micros(n)),
            TOp::Spin(n) => {
                for _ in 0..n {
                    std::hint::spin_loop()
                }
            }
            TOp::Yield => std::thread::yield_now(),
            TOp::Signal(n) => gates.open(n),
            TOp::WaitSignal(n) => gates.wait(n),
            TOp::Suspend(acts) => out.suspend_and_run(sfun(
                acts,
                gates.clone(),
                log.clone(),
                out.clone(),
            )),
            TOp::Panic(s) => panic!("{}", s),
            TOp::Stderr(s) => {
                let mut e = std::io::stderr();
                let _ = e.write_all(s.as_bytes());
            }
            TOp::Storm { err, gate, max } => {
                let mut n = 0;
                while n < max && !gates.is_open(gate) {
                    for _ in 0..10 {
                        n += 1;
                        if err {
                            let _ = std::io::stderr().write_all(b"storm\n");
                        } else if catch_unwind(AssertUnwindSafe(|| out.println("storm"))).is_err() {
                            max_out(&mut n);
                            break;
                        }
                    }
                    std::thread::sleep(Duration::from_micros(20));
                }
                notes.push(format!("{}", n));
            }
            TOp::PrintUntilDead(tag, max) => {
                let mut n = 0;
                while n < max {
                    if catch_unwind(AssertUnwindSafe(|| out.println(format!("{}{:06}", tag, n)))).is_err() {
                        break;
                    }
                    n += 1;
                    if max > 100_000 && n % 50 == 0 {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
                notes.push(format!("{}", n));
            }
            TOp::TryNew => {
                let r = catch_unwind(InputOutput::new);
                match r {
                    Ok(_) => notes.push("second instance created".into()),
                    Err(e) => notes.push(format!("panic: {}", panic_text(e))),
                }
            }
        }));
        match r {
            Ok(()) => res.done += 1,
            Err(e) => {
                res.panic = Some(panic_text(e));
                break;
            }
        }
    }
    res
}

impl Subj {
    fn io(&mut self) -> &mut InputOutput {
        self.io.as_mut().expect("no instance")
    }
    fn exec(&mut self, c: Cmd, rep: &mut Reply) {
        match c {
            Cmd::Hello => (),
            Cmd::New => self.io = Some(InputOutput::new()),
            Cmd::Drop => drop(self.io.take()),
            Cmd::Forget => std::mem::forget(self.io.take()),
            Cmd::BlockingDie => self.io.take().expect("no instance").blocking_die(),
            Cmd::DieAsync => {
                let io = self.io.take().expect("no instance");
                let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                rt.block_on(io.die());
            }
            Cmd::DieCancel(us) => {
                let io = self.io.take().expect("no instance");
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
                rt.block_on(async {
                    let _ = tokio::time::timeout(Duration::from_micros(us), io.die()).await;
                });
            }
            Cmd::HeldDie(how, ms) => {
                let over = Arc::new(std::sync::atomic::AtomicBool::new(false));
                let o = over.clone();
                self.io().suspend_and_run(move || {
                    std::thread::sleep(Duration::from_millis(ms));
                    o.store(true, std::sync::atomic::Ordering::SeqCst);
                });
                self.exec(*how, rep);
                rep.flag = over.load(std::sync::atomic::Ordering::SeqCst);
            }
            Cmd::Print(via, l) => {
                let l = l.to_line();
                match via {
                    Via::Io => self.io().println(l),
                    Via::Clone => match &self.clone {
                        Some(c) => c.println(l),
                        None => self.io().clone_output().println(l),
                    },
                    Via::Global => {
                        #[cfg(feature = "global")]
                        liso::output().println(l);
                        #[cfg(not(feature = "global"))]
                        self.io().println(l);
                    }
                }
            }
            Cmd::Wrap(via, l) => {
                let l = l.to_line();
                match via {
                    Via::Io => self.io().wrapln(l),
                    Via::Clone => self.io().clone_output().wrapln(l),
                    Via::Global => {
                        #[cfg(feature = "global")]
                        liso::output().wrapln(l);
                        #[cfg(not(feature = "global"))]
                        self.io().wrapln(l);
                    }
                }
            }
            Cmd::Echo(l) => self.io().echoln(l.to_line()),
            Cmd::Status(s) => self.io().status(s.map(|x| x.to_line())),
            Cmd::RemoveStatus => self.io().remove_status(),
            Cmd::Prompt(l, a, b) => self.io().prompt(l.to_line(), a, b),
            #[allow(deprecated)]
            Cmd::RemovePrompt(a, b) => self.io().remove_prompt(a, b),
            Cmd::Notice(l, d) => self.io().notice(l.to_line(), d.get()),
            Cmd::Bell => self.io().bell(),
            Cmd::Custom(n) => self.io().send_custom(Token::new(n)),
            Cmd::Customs(n) => {
                for i in 0..n {
                    self.io().send_custom(Token::new(i as u64));
                }
            }
            Cmd::Child(text, ours, ms) => {
                use std::process::{Command, Stdio};
                let mut p = Command::new("/bin/sh");
                p.arg("-c").arg(format!("echo '{}' >&2; exec sleep {}.{:03}", text, ms / 1000, ms % 1000));
                p.stdin(Stdio::null()).stdout(Stdio::null());
                if !ours {
                    p.stderr(Stdio::null());
                }
                self.children.push(p.spawn().unwrap());
            }
            Cmd::ChildWait => {
                for mut p in self.children.drain(..) {
                    let _ = p.wait();
                }
            }
            Cmd::CustomBox(n) => self.io().send_custom_box(Box::new(Token::new(n))),
            Cmd::Drain => {
                while let Some(r) = self.io().try_read() {
                    let r = conv(r);
                    let dead = r.0 == Resp::Dead;
                    rep.resps.push(r);
                    if dead {
                        break;
                    }
                }
            }
            Cmd::Read(m) => {
                let (r, us) = read_one(self.io(), &m);
                rep.us = us;
                if let Some(r) = r {
                    rep.resps.push(r);
                }
            }
            Cmd::ReadSeq(ms) => {
                for (i, m) in ms.iter().enumerate() {
                    let (r, us) = read_one(self.io(), m);
                    rep.lines.push(format!("{} {} {}", i, us, r.is_some()));
                    if let Some(r) = r {
                        rep.resps.push(r);
                    }
                }
            }
            Cmd::SetCompletor(id, acts) => {
                let c = RecCompletor { id, acts, calls: self.calls.clone(), gates: self.gates.clone() };
                self.io().set_completor(Some(Box::new(c)));
            }
            Cmd::RemoveCompletor => self.io().set_completor(None),
            Cmd::TakeCompCalls => rep.calls = std::mem::take(&mut *self.calls.lock().unwrap()),
            Cmd::SwapHistory(h) => {
                let h = make_history(&h).expect("history");
                let old = self.io().swap_history(h);
                rep.lines = old.get_lines().to_vec();
            }
            Cmd::HistoryLines => rep.lines = self.io().read_history().get_lines().to_vec(),
            Cmd::SeenLines(n, spin, swap) => {
                let fresh = || {
                    let mut h = liso::History::new();
                    h.set_limit(None);
                    h
                };
                let io = self.io();
                // (a line is put into the history before it is delivered, so it
                // can be in one that has been replaced since)
                let mut old = io.swap_history(fresh()).get_lines().to_vec();
                while rep.num < n as i64 {
                    let r = if spin {
                        loop {
                            match io.try_read() {
                                Some(r) => break r,
                                None => std::hint::spin_loop(),
                            }
                        }
                    } else {
                        io.read_blocking()
                    };
                    let liso::Response::Input(x) = r else {
                        rep.lines.push(format!("{:?}", r));
                        break;
                    };
                    rep.num += 1;
                    if swap > 0 && rep.num % swap as i64 == 0 {
                        old.extend_from_slice(io.swap_history(fresh()).get_lines());
                    }
                    let there = old.contains(&x) || io.read_history().get_lines().contains(&x);
                    if !there {
                        rep.lines.push(x);
                    }
                }
            }
            Cmd::Suspend(acts) => {
                let (g, l) = (self.gates.clone(), self.log.clone());
                let out = self.io().clone_output();
                self.io().suspend_and_run(sfun(acts, g, l, out));
            }
            Cmd::OpenGate(n) => self.gates.open(n),
            Cmd::AwaitGate(n, ms) => {
                let end = Instant::now() + Duration::from_millis(ms);
                loop {
                    rep.flag = self.gates.open.lock().unwrap().contains(&n);
                    if rep.flag || Instant::now() > end {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(50));
                }
            }
            Cmd::TakeLog => rep.lines = std::mem::take(&mut *self.log.lock().unwrap()),
            Cmd::SetClone => self.clone = Some(self.io().clone_output()),
            Cmd::DropClone => self.clone = None,
            Cmd::Spawn(progs, clone_in_thread) => {
                for p in progs {
                    let out = if clone_in_thread {
                        let o = self.io().clone_output();
                        o.clone()
                    } else {
                        self.io().clone_output()
                    };
                    let (g, l) = (self.gates.clone(), self.log.clone());
                    self.joins.push(std::thread::spawn(move || run_prog(p, out, g, l)));
                }
            }
            Cmd::Join => {
                for j in self.joins.drain(..) {
                    rep.threads.push(j.join().unwrap_or_default());
                }
            }
            Cmd::JoinFor(ms) => {
                let end = Instant::now() + Duration::from_millis(ms);
                while Instant::now() < end && !self.joins.iter().all(|j| j.is_finished()) {
                    std::thread::sleep(Duration::from_millis(1));
                }
                rep.flag = self.joins.iter().all(|j| j.is_finished());
                if rep.flag {
                    for j in self.joins.drain(..) {
                        rep.threads.push(j.join().unwrap_or_default());
                    }
                }
            }
            Cmd::Panic(s) => panic!("{}", s),
            Cmd::PanicThread(s) => {
                let _ = std::thread::spawn(move || panic!("{}", s)).join();
            }
            Cmd::SetHook(s) => std::panic::set_hook(Box::new(move |_| {
                let mut e = std::io::stderr();
                let _ = e.write_all(s.as_bytes());
            })),
            Cmd::ReadStdinLine => {
                let mut s = String::new();
                let n = std::io::stdin().lock().read_line(&mut s);
                rep.lines.push(s);
                rep.num = n.map(|x| x as i64).unwrap_or(-1);
            }
            Cmd::ReadStdinBytes(n) => {
                let mut b = vec![0; n];
                let r = std::io::stdin().lock().read(&mut b);
                rep.num = r.as_ref().map(|x| *x as i64).unwrap_or(-1);
                b.truncate(r.unwrap_or(0));
                rep.lines.push(String::from_utf8_lossy(&b).to_string());
            }
            Cmd::StdoutWrite(s) => {
                let mut o = std::io::stdout();
                o.write_all(s.as_bytes()).expect("stdout");
                o.flush().expect("stdout");
            }
            Cmd::StderrWrite(b) => unsafe {
                let mut p = &b[..];
                while !p.is_empty() {
                    let n = libc::write(2, p.as_ptr() as *const _, p.len());
                    if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                        continue;
                    }
                    if n <= 0 {
                        rep.num = -1;
                        break;
                    }
                    p = &p[n as usize..];
                }
            },
            Cmd::SigHupDisposition => unsafe {
                let mut a: libc::sigaction = std::mem::zeroed();
                libc::sigaction(libc::SIGHUP, std::ptr::null(), &mut a);
                rep.num = if a.sa_sigaction == libc::SIG_DFL {
                    0
                } else if a.sa_sigaction == libc::SIG_IGN {
                    1
                } else if a.sa_sigaction == my_hup as *const () as usize {
                    2
                } else {
                    3
                };
                rep.us = a.sa_flags as u64;
            },
            Cmd::Dispositions => unsafe {
                for n in 1..=64 {
                    let mut a: libc::sigaction = std::mem::zeroed();
                    if libc::sigaction(n, std::ptr::null(), &mut a) == 0 {
                        let m: Vec<i32> = (1..=64).filter(|k| libc::sigismember(&a.sa_mask, *k) == 1).collect();
                        rep.lines.push(format!("{} {:x} {:x} {:?}", n, a.sa_sigaction, a.sa_flags, m));
                    }
                }
            },
            Cmd::InstallHup => unsafe {
                let mut a: libc::sigaction = std::mem::zeroed();
                a.sa_sigaction = my_hup as *const () as usize;
                a.sa_flags = libc::SA_RESTART;
                libc::sigaddset(&mut a.sa_mask, libc::SIGWINCH);
                libc::sigaction(libc::SIGHUP, &a, std::ptr::null_mut());
            },
            Cmd::Starve(n) => unsafe {
                let mut l: libc::rlimit = std::mem::zeroed();
                libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
                match n {
                    Some(n) => {
                        // fill all the gaps there are
                        let top = std::fs::read_dir("/proc/self/fd").unwrap().flatten().filter_map(|e| e.file_name().to_str()?.parse::<i32>().ok()).max().unwrap();
                        self.nofile = Some(l);
                        l.rlim_cur = (top as u32 + 1 + n) as u64;
                        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                        loop {
                            let f = libc::fcntl(0, libc::F_DUPFD_CLOEXEC, 0);
                            if f < 0 {
                                break;
                            }
                            self.fillers.push(f);
                        }
                        for _ in 0..n {
                            if let Some(f) = self.fillers.pop() {
                                libc::close(f);
                            }
                        }
                    }
                    None => {
                        if let Some(l) = self.nofile.take() {
                            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                        }
                        for f in self.fillers.drain(..) {
                            libc::close(f);
                        }
                    }
                }
            },
            Cmd::FdIds => {
                for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
                    let n = e.file_name().to_string_lossy().to_string();
                    if let Ok(t) = std::fs::read_link(e.path()) {
                        let t = t.to_string_lossy().to_string();
                        if !t.contains("/proc/") {
                            rep.lines.push(format!("{} {}", n, t));
                        }
                    }
                }
                rep.lines.sort();
            }
            #[allow(unused_variables)]
            Cmd::GlobalPrintMacro(s) => {
                #[cfg(feature = "global")]
                {
                    use liso::liso;
                    let _ = liso!("x");
                    liso::println!(bold, s.clone());
                    liso::wrapln!(s);
                }
            }
            Cmd::Sleep(ms) => std::thread::sleep(Duration::from_millis(ms)),
            Cmd::ProcessHistory(ops, spec) => {
                process_history(ops, spec, rep);
            }
            Cmd::Exit(n) => std::process::exit(n),
            Cmd::Cycle(n, print) => {
                for i in 0..n {
                    let io = InputOutput::new();
                    if print {
                        io.println(format!("cycle {}", i));
                    }
                    drop(io);
                }
            }
            Cmd::DeadThenPrint(m) => {
                let io = self.io();
                loop {
                    let (r, _) = read_one(io, &m);
                    match r {
                        Some((Resp::Dead, _)) => break,
                        Some(r) => rep.resps.push(r),
                        None => (),
                    }
                }
                rep.flag = catch_unwind(AssertUnwindSafe(|| io.println("lost?"))).is_err();
            }
            Cmd::ClonePrints(n) => {
                for i in 0..n {
                    let io = InputOutput::new();
                    let o = io.clone_output();
                    match i % 3 {
                        0 => drop(io),
                        1 => io.blocking_die(),
                        _ => {
                            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                            rt.block_on(io.die());
                        }
                    }
                    if catch_unwind(AssertUnwindSafe(|| o.println("lost?"))).is_ok() {
                        rep.num += 1;
                    }
                }
            }
            #[allow(unused_variables)]
            Cmd::GlobalTry(t) => {
                #[cfg(feature = "global")]
                {
                    rep.flag = catch_unwind(AssertUnwindSafe(|| liso::output().println(t))).is_err();
                }
            }
            Cmd::FdGuard(on) => {
                static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
                if on {
                    STOP.store(false, std::sync::atomic::Ordering::SeqCst);
                    self.guard = Some(std::thread::spawn(|| {
                        let mut bad = vec![];
                        let mut n = 0u64;
                        while !STOP.load(std::sync::atomic::Ordering::Relaxed) {
                            unsafe {
                                let fd = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC);
                                if (0..=2).contains(&fd) && bad.len() < 5 {
                                    bad.push(format!("descriptor {} was free", fd));
                                }
                                let mut st: libc::stat = std::mem::zeroed();
                                // (it must still be what we opened)
                                if libc::fstat(fd, &mut st) != 0 || st.st_rdev != libc::makedev(1, 3) {
                                    bad.push(format!("descriptor {} was closed or replaced by somebody", fd));
                                }
                                if libc::close(fd) != 0 && bad.len() < 5 {
                                    bad.push(format!("descriptor {} was closed by somebody", fd));
                                }
                            }
                            n += 1;
                        }
                        (bad, n)
                    }));
                } else if let Some(g) = self.guard.take() {
                    STOP.store(true, std::sync::atomic::Ordering::SeqCst);
                    let (bad, n) = g.join().unwrap();
                    rep.lines = bad;
                    rep.us = n;
                }
            }
            Cmd::PanicMany(n, t) => {
                let b = Arc::new(std::sync::Barrier::new(n as usize));
                let hs: Vec<_> = (0..n)
                    .map(|i| {
                        let (b, t) = (b.clone(), t.clone());
                        std::thread::spawn(move || {
                            b.wait();
                            panic!("{}{}", t, i)
                        })
                    })
                    .collect();
                for h in hs {
                    let _ = h.join();
                }
            }
            Cmd::Fds012 => {
                for fd in 0..3 {
                    unsafe {
                        let mut st: libc::stat = std::mem::zeroed();
                        if libc::fstat(fd, &mut st) == 0 {
                            let fl = libc::fcntl(fd, libc::F_GETFL);
                            rep.lines.push(format!("{} {} {} {:x}", fd, st.st_dev, st.st_ino, fl));
                        } else {
                            rep.lines.push(format!("{} closed", fd));
                        }
                    }
                }
            }
            Cmd::RaceNew(n) => {
                let b = Arc::new(std::sync::Barrier::new(n as usize));
                let hs: Vec<_> = (0..n)
                    .map(|_| {
                        let b = b.clone();
                        std::thread::spawn(move || {
                            b.wait();
                            catch_unwind(InputOutput::new).ok()
                        })
                    })
                    .collect();
                for h in hs {
                    if let Some(io) = h.join().unwrap() {
                        rep.num += 1;
                        match self.io {
                            None => self.io = Some(io),
                            Some(_) => std::mem::forget(io),
                        }
                    }
                }
            }
            Cmd::RaceRecreate(d1, d2) => race_recreate(self, d1, d2, rep),
        }
    }
}

/// Two threads: one shuts the instance down, the other keeps trying to create
/// a new one; reports how often it had to try.
fn race_recreate(s: &mut Subj, d1: u64, d2: u64, rep: &mut Reply) {
    let io = s.io.take().expect("no instance");
    let t = std::thread::spawn(move || {
        std::thread::sleep(Duration::from_micros(d2));
        let mut tries = 0;
        loop {
            tries += 1;
            match catch_unwind(InputOutput::new) {
                Ok(io) => return (io, tries),
                Err(_) => std::thread::yield_now(),
            }
        }
    });
    std::thread::sleep(Duration::from_micros(d1));
    drop(io);
    let (io, tries) = t.join().unwrap();
    rep.us = tries;
    s.io = Some(io);
}

fn max_out(n: &mut u32) {
    *n = u32::MAX - 1000;
}

extern "C" fn my_hup(_: i32) {}

fn process_history(ops: Vec<HOp>, spec: HistSpec, rep: &mut Reply) {
    let mut h = match make_history(&spec) {
        Ok(h) => Some(h),
        Err(e) => {
            rep.lines.push(format!("load-error {}", e));
            return;
        }
    };
    for op in ops {
        match op {
            HOp::Add(l) => {
                if let Some(h) = h.as_mut() {
                    match h.add_line(l) {
                        Ok(()) => rep.lines.push("ok".into()),
                        Err(e) => rep.lines.push(format!("error {}", e)),
                    }
                }
            }
            HOp::Interval(n) => {
                if let Some(h) = h.as_mut() {
                    h.set_autosave_interval(n.and_then(NonZeroUsize::new));
                }
            }
            HOp::Limit(n) => {
                if let Some(h) = h.as_mut() {
                    h.set_limit(n.and_then(NonZeroUsize::new));
                }
            }
            HOp::Strip(b) => {
                if let Some(h) = h.as_mut() {
                    h.set_strip_duplicates(b);
                }
            }
            HOp::Load(f) => {
                h = liso::History::from_file(f).ok();
            }
            HOp::Drop => {
                h = None;
            }
        }
    }
    if let Some(h) = h.as_ref() {
        rep.lines.push(format!("final {}", h.get_lines().len()));
    }
    std::mem::forget(h);
}

pub fn main() {
    unsafe {
        libc::fcntl(3, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(4, libc::F_SETFD, libc::FD_CLOEXEC);
        if std::env::var_os("LISOMON_USR1").is_some() {
            extern "C" fn nothing(_: libc::c_int) {}
            // (without SA_RESTART)
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = nothing as *const () as usize;
            libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
        }
    }
    let ctl = unsafe { File::from_raw_fd(3) };
    let mut out = unsafe { File::from_raw_fd(4) };
    let _ = out.as_raw_fd();
    let mut ctl = BufReader::new(ctl);
    let mut s = Subj {
        io: None,
        clone: None,
        gates: Arc::new(Gates::default()),
        log: Arc::new(Mutex::new(vec![])),
        calls: Arc::new(Mutex::new(vec![])),
        joins: vec![],
        guard: None,
        nofile: None,
        children: vec![],
        fillers: vec![],
    };
    loop {
        let mut l = String::new();
        match ctl.read_line(&mut l) {
            Ok(0) | Err(_) => {
                // the monitor is gone
                unsafe { libc::_exit(0) }
            }
            Ok(_) => {}
        }
        let c: Cmd = serde_json::from_str(&l).expect("command");
        let mut rep = Reply::default();
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| s.exec(c, &mut rep))) {
            rep.panic = Some(panic_text(e));
        }
        let mut v = serde_json::to_vec(&rep).unwrap();
        v.push(b'\n');
        if out.write_all(&v).is_err() {
            unsafe { libc::_exit(0) }
        }
    }
}
