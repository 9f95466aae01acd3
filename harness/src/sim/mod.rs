//! The simulator: one simulated machine (file system, clock, entropy, argument
//! vectors) and a seeded scheduler that lets exactly one simulated process run
//! at a time.  Simulated processes are fresh OS threads whose system calls are
//! interposed (see os.rs); every interposed call is a scheduling point.
pub mod os;
pub mod tape;
pub mod vfs;

use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::ffi::CString;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use tape::{Tape, TapeData, S};
use vfs::Vfs;

pub const ROOT: &str = "/simfs";
pub const CWD: &str = "/simfs/work";
pub const FD0: i32 = 1 << 20;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Class {
    OpenR = 0,
    OpenW = 1,
    Read = 2,
    Write = 3,
    Mkdir = 4,
    Stat = 5,
    Opendir = 6,
    Readdir = 7,
    Other = 8,
    Yield = 9,
}
pub const NCLASS: usize = 10;
pub const CLASS_NAMES: [&str; NCLASS] = [
    "open-read", "open-write", "read", "write", "mkdir", "stat", "opendir", "readdir", "other", "yield",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// the call fails with this errno and has no effect
    Errno(i32),
    /// the process dies before the call takes effect
    CrashBefore,
    /// the process dies right after the call took effect
    CrashAfter,
    /// (write) the process dies after a prefix of `per mille` reached the file
    CrashTorn(u32),
    /// the nth write to a file with this in its path fails
    WriteTo(&'static str, i32),
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// None: any class
    pub class: Option<Class>,
    /// fires on the nth (0-based) call of that class by the process
    pub nth: u32,
    pub sticky: bool,
    pub kind: FaultKind,
}

/// Recoverable behaviour of the machine, chosen per run (swarm style).
#[derive(Clone, Debug, Default)]
pub struct Benign {
    /// chances out of 16
    pub short_read: u64,
    pub short_write: u64,
    pub eintr: u64,
    pub dt_unknown: u64,
    pub shuffle: bool,
    /// nanoseconds per operation
    pub tick: i64,
    /// chance out of 64 of a clock jump per operation
    pub jump: u64,
    /// chance out of 16 that a scheduling point switches
    pub preempt: u64,
}

pub struct OpenFile {
    pub inode: Option<usize>, // None: directory
    pub path: String,
    pub pos: u64,
    pub append: bool,
    pub r: bool,
    pub w: bool,
}

#[derive(Default)]
pub struct Proc {
    pub name: String,
    pub argv: Vec<CString>,
    pub crashed: bool,
    pub done: bool,
    pub ops: [u32; NCLASS],
    /// writes that met a fault for files of a certain name
    pub writes_to: u32,
    pub total: u32,
    pub faults: Vec<Fault>,
    pub fired: Vec<String>,
    /// UTC days this process saw on the clock
    pub days: std::collections::BTreeSet<i64>,
    pub wake: Arc<Condvar>,
}

pub struct World {
    pub vfs: Vfs,
    pub tape: Tape,
    pub procs: Vec<Proc>,
    pub cur: usize,
    pub running: Vec<usize>,
    pub files: HashMap<i32, OpenFile>,
    pub next_fd: i32,
    pub now: i64,
    pub mono: i64,
    pub simulated: i64,
    pub benign: Benign,
    pub ops: u64,
    pub switches: u64,
    pub budget: u64,
    pub exhausted: bool,
    pub hash: u64,
    pub sched_hash: u64,
    pub trace: Option<Vec<String>>,
    pub stats: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub escapes: Vec<String>,
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

pub type Guard = MutexGuard<'static, Option<World>>;

pub fn me() -> Option<usize> {
    let v = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if v == usize::MAX { None } else { Some(v) }
}
pub fn lock() -> Guard {
    WORLD.lock().unwrap_or_else(|e| e.into_inner())
}
/// Access the world; panics outside a run.
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let mut g = lock();
    f(g.as_mut().expect("no world"))
}

pub fn begin(tape: Tape, record: bool) {
    std::env::set_var("TZ", "UTC0");
    let mut vfs = Vfs::new(&[CWD, "/simfs/tmp"]);
    vfs.capacity = None;
    let w = World {
        vfs,
        tape,
        procs: vec![],
        cur: usize::MAX,
        running: vec![],
        files: HashMap::new(),
        next_fd: FD0,
        now: 1_600_000_000_000_000_000,
        mono: 1_000_000_000,
        simulated: 0,
        benign: Benign { tick: 1000, ..Default::default() },
        ops: 0,
        switches: 0,
        budget: 1_000_000,
        exhausted: false,
        hash: 0xcbf2_9ce4_8422_2325,
        sched_hash: 0xcbf2_9ce4_8422_2325,
        trace: if record { Some(vec![]) } else { None },
        stats: BTreeMap::new(),
        nontrivial: false,
        sample: None,
        escapes: vec![],
    };
    *lock() = Some(w);
}

pub struct Finished {
    pub tape: TapeData,
    pub hash: u64,
    pub sched_hash: u64,
    pub trace: Option<Vec<String>>,
    pub stats: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub ops: u64,
    pub switches: u64,
    pub simulated: i64,
    pub exhausted: bool,
}
pub fn end() -> Finished {
    let w = lock().take().expect("no world");
    Finished {
        tape: w.tape.finish(),
        hash: w.hash,
        sched_hash: w.sched_hash,
        trace: w.trace,
        stats: w.stats,
        nontrivial: w.nontrivial,
        sample: w.sample,
        ops: w.ops,
        switches: w.switches,
        simulated: w.simulated,
        exhausted: w.exhausted,
    }
}

impl World {
    pub fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5);
    }
    pub fn mix_str(&mut self, s: &str) {
        let mut h = 0u64;
        for b in s.bytes() {
            h = h.wrapping_mul(131).wrapping_add(b as u64);
        }
        self.mix(h);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                t.push(f());
            }
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn draw(&mut self, s: S, n: u64) -> u64 {
        self.tape.draw(s, n)
    }
    /// true with chance num/den; the tape value 0 means false
    pub fn chance(&mut self, s: S, num: u64, den: u64) -> bool {
        num > 0 && self.tape.draw(s, den) >= den - num.min(den)
    }
    fn set_cur(&mut self, p: usize) {
        self.cur = p;
        os::set_argv(&self.procs[p].argv);
    }
}

/// From a simulated process: become a program started with these arguments.
pub fn exec_args(args: &[String]) {
    let p = me().expect("no process");
    let argv: Vec<CString> = args.iter().map(|a| CString::new(a.as_str()).expect("nul in argument")).collect();
    with(|w| {
        w.procs[p].argv = argv;
        w.set_cur(p);
    });
}

// ---- scenario-side helpers -------------------------------------------------

/// A scenario decision in 0..n.
pub fn g(n: u64) -> u64 {
    with(|w| w.draw(S::Gen, n))
}
pub fn gr(lo: i64, hi: i64) -> i64 {
    lo + g((hi - lo + 1) as u64) as i64
}
pub fn chance(num: u64, den: u64) -> bool {
    with(|w| w.chance(S::Gen, num, den))
}
pub fn fchance(num: u64, den: u64) -> bool {
    with(|w| w.chance(S::Fault, num, den))
}
pub fn f(n: u64) -> u64 {
    with(|w| w.draw(S::Fault, n))
}
pub fn pick<T: Clone>(v: &[T]) -> T {
    v[g(v.len() as u64) as usize].clone()
}
pub fn shuffle<T>(v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - g(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}
pub fn count(k: &str) {
    with(|w| w.count(k, 1))
}
pub fn nontrivial() {
    with(|w| w.nontrivial = true)
}
pub fn sample(s: impl FnOnce() -> String) {
    with(|w| {
        if w.sample.is_none() {
            w.sample = Some(s());
        }
    })
}
pub fn note(f: impl FnOnce() -> String) {
    with(|w| w.note(f))
}
pub fn crashed() -> bool {
    match me() {
        Some(p) => with(|w| w.procs[p].crashed),
        None => false,
    }
}

/// An explicit scheduling point (and step of simulated work) of the caller.
pub fn yield_point() {
    if let Some(p) = me() {
        let _ = os::op(p, Class::Yield, || "step".into(), |_, _| Ok(()));
        if with(|w| w.exhausted) {
            panic!("simulated run exceeded its step budget");
        }
    }
}

/// Draw the benign machine behaviour of this run.
pub fn draw_benign(io: bool) {
    with(|w| {
        let mut b = Benign { tick: 1000, ..Default::default() };
        b.preempt = [6, 1, 3, 12][w.draw(S::Sched, 4) as usize];
        if io {
            b.short_read = [0, 0, 4, 15][w.draw(S::Io, 4) as usize];
            b.short_write = [0, 0, 4, 12][w.draw(S::Io, 4) as usize];
            b.eintr = [0, 0, 1, 3][w.draw(S::Io, 4) as usize];
            b.dt_unknown = [0, 0, 8, 16][w.draw(S::Io, 4) as usize];
            b.shuffle = w.draw(S::Io, 4) > 0;
            b.tick = [1_000, 1_000_000, 1_000_000_000, 600_000_000_000][w.draw(S::Io, 4) as usize];
            b.jump = [0, 0, 1, 4][w.draw(S::Io, 4) as usize];
            // a date between 2001 and 2099; often a hair before midnight UTC
            let day = 11323 + w.draw(S::Io, 36000) as i64;
            let ns = match w.draw(S::Io, 4) {
                0 => 43_200_000_000_000,
                1 => w.draw(S::Io, 86_400) as i64 * 1_000_000_000,
                _ => 86_400_000_000_000 - 1 - w.draw(S::Io, 40) as i64 * b.tick,
            };
            w.now = day * 86_400_000_000_000 + ns.max(0);
            // no simulated process is running now
            let tz = ["UTC0", "UTC0", "AAA-13:30", "BBB+11:15"][w.draw(S::Io, 4) as usize];
            std::env::set_var("TZ", tz);
        }
        w.benign = b;
    })
}

pub struct ProcOut<T> {
    pub value: Result<T, String>, // Err: panic message
    pub crashed: bool,
    pub fired: Vec<String>,
    pub id: usize,
}

pub struct Spec<'a, T> {
    pub name: String,
    pub args: Vec<String>,
    pub faults: Vec<Fault>,
    pub body: Box<dyn FnOnce() -> T + Send + 'a>,
}
impl<'a, T> Spec<'a, T> {
    pub fn new(name: &str, args: &[String], body: impl FnOnce() -> T + Send + 'a) -> Self {
        Spec { name: name.into(), args: args.to_vec(), faults: vec![], body: Box::new(body) }
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run the given processes to completion under the seeded scheduler.
pub fn run_procs<'a, T: Send + 'a>(specs: Vec<Spec<'a, T>>) -> Vec<ProcOut<T>> {
    assert!(me().is_none());
    let n = specs.len();
    if n == 0 {
        return vec![];
    }
    let base = with(|w| {
        let base = w.procs.len();
        for s in &specs {
            let argv: Vec<CString> = s.args.iter().map(|a| CString::new(a.as_str()).expect("nul in argument")).collect();
            w.procs.push(Proc {
                name: s.name.clone(),
                argv,
                faults: s.faults.clone(),
                ..Default::default()
            });
        }
        w.running = (base..base + n).collect();
        let first = if n > 1 { base + w.draw(S::Sched, n as u64) as usize } else { base };
        w.set_cur(first);
        base
    });
    let mut outs: Vec<ProcOut<T>> = Vec::with_capacity(n);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (i, s) in specs.into_iter().enumerate() {
            let id = base + i;
            let body = s.body;
            let h = std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn_scoped(sc, move || {
                    {
                        let mut g = lock();
                        let wake = g.as_ref().unwrap().procs[id].wake.clone();
                        while g.as_ref().unwrap().cur != id {
                            g = wake.wait(g).unwrap_or_else(|e| e.into_inner());
                        }
                    }
                    ME.with(|m| m.set(id));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                    ME.with(|m| m.set(usize::MAX));
                    let mut g = lock();
                    let w = g.as_mut().unwrap();
                    w.procs[id].done = true;
                    w.running.retain(|&x| x != id);
                    if !w.running.is_empty() {
                        let k = w.running.len() as u64;
                        let j = if k > 1 { w.draw(S::Sched, k) } else { 0 };
                        let nx = w.running[j as usize];
                        w.sched_hash = (w.sched_hash ^ nx as u64).wrapping_mul(0x100_0000_01b3);
                        w.set_cur(nx);
                        w.procs[nx].wake.notify_all();
                    } else {
                        w.cur = usize::MAX;
                        os::set_argv(&[]);
                    }
                    r
                })
                .expect("spawn");
            hs.push((id, h));
        }
        for (id, h) in hs {
            let r = match h.join() {
                Ok(r) => r.map_err(panic_text),
                Err(p) => Err(panic_text(p)),
            };
            let (crashed, fired) = with(|w| (w.procs[id].crashed, w.procs[id].fired.clone()));
            outs.push(ProcOut { value: r, crashed, fired, id });
        }
    });
    outs
}
