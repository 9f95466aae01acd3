//! What a simulated program does after its set-up, and what it reports to the
//! harness.  (Thread-local: one job per simulated process.)
use crate::md::MdJob;
use crate::sim::*;
use moledyn::prelude::*;
use std::cell::RefCell;
use std::fmt::Debug;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum Work {
    None,
    /// write these records
    Lines(Vec<String>, Flush),
    /// run the simulation loop
    Md(MdJob),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flush {
    /// after every record
    Each,
    /// after every k records
    Every(usize),
    /// only at the end
    End,
}
/// A file to be handed to the real reader after the set-up.
#[derive(Clone, Debug)]
pub enum Probe {
    /// the program's own result file
    Own,
    Path(String),
    /// this many mutated variants of the program's own file
    Mutants(u64),
}
#[derive(Clone, Debug)]
pub struct Job {
    pub args: Vec<String>,
    pub work: Work,
    pub probes: Vec<Probe>,
}
impl Job {
    pub fn new(args: Vec<String>, work: Work) -> Self {
        Job { args, work, probes: vec![] }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Reread {
    pub dataset: String,
    pub rest: Vec<String>,
    pub parts: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct ProbeOut {
    pub what: String,
    pub expect: Expect,
    pub got: Result<Reread, String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// exactly the written configuration
    Same,
    /// refused
    Refused,
    /// refused, or read as the same data set
    SameOrRefused,
    /// no opinion beyond "no crash"
    Any,
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub set_up: bool,
    pub locals: Vec<(String, String)>,
    pub parts: Vec<String>,
    pub objs: Vec<String>,
    pub dataset: String,
    pub dist_name: String,
    /// path of the result file
    pub own: Option<String>,
    /// what was on disk when the set-up returned
    pub at_setup: Vec<u8>,
    pub started: Vec<String>,
    pub acked: usize,
    /// when (in the order of such events) each record was started, each flush returned
    pub started_at: Vec<u64>,
    pub acked_at: Vec<(u64, usize)>,
    pub begun: u64,
    pub ended: u64,
    pub completed: bool,
    pub probes: Vec<ProbeOut>,
    pub resumed: Option<(Vec<String>, Vec<String>)>,
}
pub type Shared = Arc<Mutex<Report>>;

thread_local! { static EARLIER: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; }
thread_local! { static CUR: RefCell<Option<(Job, Shared)>> = const { RefCell::new(None) }; }

/// Body of a simulated process: run the program with its job installed.
pub fn install(job: Job, shared: Shared) {
    EARLIER.with(|e| *e.borrow_mut() = written());
    shared.lock().unwrap_or_else(|e| e.into_inner()).begun = moment();
    CUR.with(|c| *c.borrow_mut() = Some((job, shared)));
}
/// Events in the order they happen; only one simulated process runs at a time.
fn moment() -> u64 {
    static NOW: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
    NOW.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
}
pub fn ended() {
    let t = moment();
    rep(|r| r.ended = t);
}
fn job() -> Job {
    CUR.with(|c| c.borrow().as_ref().expect("no job").0.clone())
}
fn rep<R>(f: impl FnOnce(&mut Report) -> R) -> R {
    let s = CUR.with(|c| c.borrow().as_ref().expect("no job").1.clone());
    let mut g = s.lock().unwrap_or_else(|e| e.into_inner());
    f(&mut g)
}

pub fn fixed_args() -> Vec<String> {
    job().args
}
pub fn md_job() -> MdJob {
    match job().work {
        Work::Md(m) => m,
        _ => MdJob::default(),
    }
}
pub fn started(rec: &str) {
    if !crashed() {
        let t = moment();
        rep(|r| {
            r.started.push(rec.to_string());
            r.started_at.push(t);
        });
    }
}
/// A flush returned success: everything started is durable.
pub fn acked() {
    if !crashed() {
        let t = moment();
        rep(|r| {
            r.acked = r.started.len();
            r.acked_at.push((t, r.acked));
        });
    }
}
pub fn resumed(copy: Vec<String>, original: Vec<String>) {
    rep(|r| r.resumed = Some((copy, original)));
}

pub fn report(locals: Vec<(&str, String)>, parts: Vec<String>, objs: Vec<String>, dataset: String, dist_name: String) {
    let own = own_path();
    let at_setup = own.as_ref().and_then(|o| with(|w| w.vfs.file(o).map(|d| d.to_vec()))).unwrap_or_default();
    rep(|r| {
        r.at_setup = at_setup;
        r.set_up = true;
        r.locals = locals.into_iter().map(|(a, b)| (a.to_string(), b)).collect();
        r.parts = parts;
        r.objs = objs;
        r.dataset = dataset;
        r.dist_name = dist_name;
        r.own = own;
    });
}

/// The file this process created by its set-up.
fn own_path() -> Option<String> {
    EARLIER.with(|e| written().into_iter().find(|p| !e.borrow().contains(p)))
}
fn written() -> Vec<String> {
    let p = match me() {
        Some(p) => p,
        None => return vec![],
    };
    with(|w| {
        let mut v: Vec<String> = vec![];
        for (k, n) in &w.vfs.nodes {
            if let vfs::Node::File(i) = n {
                if w.vfs.inodes[*i].writers & (1u128 << (p & 127)) != 0 {
                    v.push(k.clone());
                }
            }
        }
        v
    })
}

pub fn reread<H: DataSet + Debug>(
    path: &str,
    parts: &mut dyn FnMut(&mut Lines<BufReader<File>>) -> Result<(Vec<String>, ()), Error>,
) -> Result<Reread, Error> {
    let (ds, lines) = H::from_file(path)?;
    let mut rest = vec![];
    for l in lines {
        rest.push(l.map_err(Error::make_error_io)?);
    }
    let f = File::open(path).map_err(Error::make_error_io)?;
    let mut lines = BufReader::new(f).lines();
    lines.next();
    let (parts, _) = parts(&mut lines)?;
    Ok(Reread { dataset: format!("{:?}", ds), rest, parts })
}

fn try_read(reread: &dyn Fn(&str) -> Result<Reread, Error>, path: &str) -> Result<Reread, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| reread(path))) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("error: {}", e)),
        Err(p) => Err(format!(
            "panic: {}",
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

fn mutant(data: &[u8], nth: u64) -> (String, Vec<u8>, Expect) {
    let text = String::from_utf8_lossy(data).into_owned();
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    // the header: title line, one line per value, end marker
    let end = lines.iter().position(|l| l.contains("DATA STARTS") && l.starts_with("====")).unwrap_or(lines.len());
    let body: Vec<usize> = (1..end).collect();
    let is_free = |i: usize| {
        let n = lines[i].split(':').next().unwrap_or("").trim();
        n == "output_dir"
    };
    let is_loose = |i: usize| {
        // texts and vectors: many strings are legal values
        let n = lines[i].split(':').next().unwrap_or("").trim();
        matches!(n, "output_dir" | "target_pos" | "itype" | "mtype" | "bctype" | "sys_type")
    };
    // everything before the last parameter line must be complete
    let last = body.last().copied().unwrap_or(0);
    let last_start: usize = lines[..last].iter().map(|l| l.len()).sum();
    match g(7) {
        0 => {
            let k = if nth == 0 { 0 } else { g(data.len() as u64 + 1) as usize };
            let e = if k <= last_start { Expect::Refused } else { Expect::SameOrRefused };
            (format!("cut to {} of {} bytes", k, data.len()), data[..k].to_vec(), e)
        }
        1 if !body.is_empty() => {
            let i = pick(&body);
            let mut l = lines.clone();
            l.remove(i);
            // a removed line shifts the others: the last parameter is then read from the end marker
            let e = if i == last && !is_free(i) { Expect::Refused } else if is_free(i) { Expect::Any } else { Expect::Any };
            (format!("line {} removed", i), l.concat().into_bytes(), e)
        }
        2 if !body.is_empty() => {
            let i = pick(&body);
            let mut l: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
            l[i] = l[i].replacen(':', " ", l[i].matches(':').count());
            (format!("line {} without colon", i), l.concat().into_bytes(), Expect::Refused)
        }
        3 if !body.is_empty() => {
            let i = pick(&body);
            let mut l: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
            let name = lines[i].split(':').next().unwrap_or("").to_string();
            let junk = pick(&["abc", "", "1.2.3", "0x", "--1", "1e", "\u{1}\u{2}", "結果", "1 2", "!"]);
            l[i] = format!("{}: {}\n", name, junk);
            let e = if is_loose(i) { Expect::Any } else { Expect::Refused };
            (format!("line {} holds {:?}", i, junk), l.concat().into_bytes(), e)
        }
        4 => {
            let mut d = data.to_vec();
            if !d.is_empty() {
                let i = g(d.len() as u64) as usize;
                d[i] ^= 1 << g(8);
            }
            ("one bit flipped".into(), d, Expect::Any)
        }
        5 => {
            let t = pick(&[
                "", "\n", "\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n", ":\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n:\n",
                "hello\nworld\n", "a: b\nc: d\n", "1.0\n2.0\n3.0\n4.0\n", "(1,2) (3,4)\n",
            ]);
            ("foreign text".into(), t.as_bytes().to_vec(), Expect::Refused)
        }
        _ => {
            let n = g(400) as usize;
            let d: Vec<u8> = (0..n).map(|_| g(256) as u8).collect();
            ("binary file".into(), d, Expect::Refused)
        }
    }
}

/// The program's work, with the header already written and flushed.
pub fn work<F: FnOnce(&mut BufWriter<&File>) -> Result<(), Error>>(
    writer: &mut BufWriter<&File>,
    reread: &dyn Fn(&str) -> Result<Reread, Error>,
    md: F,
) -> Result<(), Error> {
    let j = job();
    let io = Error::make_error_io;
    match &j.work {
        Work::None => {}
        Work::Lines(recs, fl) => {
            for (i, r) in recs.iter().enumerate() {
                started(r);
                if i % 2 == 0 {
                    write!(writer, "{}\n", r).map_err(io)?;
                } else {
                    writer.write_all(format!("{}\n", r).as_bytes()).map_err(io)?;
                }
                let due = match fl {
                    Flush::Each => true,
                    Flush::Every(k) => (i + 1) % (*k).max(1) == 0,
                    Flush::End => false,
                };
                if due {
                    writer.flush().map_err(io)?;
                    acked();
                }
            }
            writer.flush().map_err(io)?;
            acked();
        }
        Work::Md(_) => md(writer)?,
    }
    let own = rep(|r| r.own.clone());
    for p in &j.probes {
        match p {
            Probe::Own => {
                if let Some(o) = &own {
                    let got = try_read(reread, o);
                    rep(|r| r.probes.push(ProbeOut { what: "own file".into(), expect: Expect::Same, got }));
                }
            }
            Probe::Path(o) => {
                let got = try_read(reread, o);
                rep(|r| r.probes.push(ProbeOut { what: o.clone(), expect: Expect::Any, got }));
            }
            Probe::Mutants(n) => {
                let data = own.as_ref().and_then(|o| with(|w| w.vfs.file(o).map(|d| d.to_vec()))).unwrap_or_default();
                for k in 0..*n {
                    let (what, d, expect) = mutant(&data, k);
                    let path = format!("/simfs/tmp/m{}_{}", me().unwrap_or(0), k);
                    with(|w| w.vfs.put(&path, &d));
                    let got = try_read(reread, &path);
                    with(|w| {
                        w.vfs.nodes.remove(&path);
                        w.count("mutated header", 1);
                    });
                    rep(|r| r.probes.push(ProbeOut { what, expect, got }));
                }
            }
        }
    }
    if !crashed() {
        rep(|r| r.completed = true);
    }
    Ok(())
}
