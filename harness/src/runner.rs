//! Seeds, worker processes, minimisation, replay and evidence.
use crate::props::{find, Property};
use crate::sim::tape::{Prng, Tape, TapeData, STREAMS};
use crate::sim::{self, Finished};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const PAD: usize = 72; // argument slots for simulated programs
const HANG: u64 = 60;

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).filter(|s| *s != "-").collect();
    match a.get(1).copied() {
        Some("check") => check(&a[2..]),
        Some("worker") => worker(&a[2..]),
        Some("fresh") => fresh_child(a[2]),
        Some("one") => one(&a[2..]),
        Some("shrink") => shrink(&a[2..]),
        Some("replay") => replay(&a[2..]),
        Some("hashes") => hashes(&a[2..]),
        _ => {
            eprintln!("usage: simcheck check PROPERTY --tier T --seed N --out DIR | replay FILE | hashes PROPERTY SEED FROM TO");
            2
        }
    }
}

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = base.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for b in prop.bytes() {
        h = h.wrapping_mul(131).wrapping_add(b as u64);
    }
    let mut p = Prng::new(h ^ i.wrapping_mul(0xd134_2543_de82_ef95));
    p.next()
}

// ---- one run -------------------------------------------------------------------

fn prepare() {
    // simulated processes die and panic as part of normal runs
    std::panic::set_hook(Box::new(|info| {
        if sim::me().is_none() && std::env::var_os("SIM_VERBOSE").is_some() {
            eprintln!("harness: {}", info);
        }
    }));
    unsafe {
        let r = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
    // let the standard library find out what the machine offers
    sim::begin(Tape::replay(Default::default()), false);
    let _ = sim::run_procs(vec![sim::Spec::new("warm-up", &["w".to_string()], || {
        use std::io::{Read, Write};
        let _ = std::fs::metadata("/simfs/tmp");
        let _ = std::fs::create_dir("/simfs/tmp/w");
        if let Ok(mut f) = std::fs::File::create("/simfs/tmp/w/f") {
            let _ = f.write_all(b"x\n");
        }
        if let Ok(mut f) = std::fs::File::open("/simfs/tmp/w/f") {
            let mut s = String::new();
            let _ = f.read_to_string(&mut s);
        }
        if let Ok(d) = std::fs::read_dir("/simfs/tmp/w") {
            for e in d {
                let _ = e.map(|e| e.file_type());
            }
        }
        let _ = std::time::SystemTime::now();
        let _ = std::time::Instant::now();
        let m: std::collections::HashMap<i32, i32> = std::collections::HashMap::new();
        let _ = std::env::args().count();
        m.len()
    })]);
    let _ = sim::end();
}

struct Outcome {
    result: Result<(), String>,
    fin: Finished,
}

fn run_tape(p: &Property, tape: Tape, record: bool) -> Outcome {
    sim::begin(tape, record);
    let f = p.run;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let escapes = sim::with(|w| w.escapes.clone());
    let fin = sim::end();
    let result = match r {
        _ if fin.exhausted => Err("no progress: the run exceeded its budget of steps".to_string()),
        Ok(r) => r,
        Err(e) => Err(format!(
            "HARNESS: {}",
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    };
    let result = match result {
        Ok(()) if !escapes.is_empty() => Err(format!("stray access: {:?}", escapes)),
        r => r,
    };
    Outcome { result, fin }
}

fn kind(m: &str) -> &str {
    m.split(':').next().unwrap_or(m)
}

fn tape_json(t: &TapeData) -> Value {
    let mut m = serde_json::Map::new();
    for (n, d) in STREAMS.iter().zip(t) {
        m.insert(n.to_string(), json!(d));
    }
    Value::Object(m)
}
fn tape_from(v: &Value) -> TapeData {
    let mut t: TapeData = Default::default();
    for (i, n) in STREAMS.iter().enumerate() {
        if let Some(a) = v.get(*n).and_then(|x| x.as_array()) {
            t[i] = a.iter().filter_map(|x| x.as_u64()).collect();
        }
    }
    t
}

// ---- worker ----------------------------------------------------------------------

fn out(s: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

/// worker PROP BASE OFFSET STRIDE COUNT: runs OFFSET, OFFSET+STRIDE, ... below COUNT
fn worker(a: &[&str]) -> i32 {
    let p = find(a[0]).expect("property");
    let n: Vec<u64> = a[1..5].iter().map(|x| x.parse().unwrap()).collect();
    let (base, off, stride, count) = (n[0], n[1], n[2], n[3]);
    prepare();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = off;
    let mut k = 0u64;
    while i < count {
        let seed = seed_of(base, p.id, i);
        out(&format!("S {}", i));
        let o = run_tape(p, Tape::generate(seed), false);
        for (s, c) in &o.fin.stats {
            *stats.entry(s.clone()).or_insert(0) += c;
        }
        if let Err(m) = &o.result {
            out(&format!("V {} {}", i, json!({"message": m, "tape": tape_json(&o.fin.tape)})));
            i += stride;
            k += 1;
            continue;
        }
        // the same tape again must be the same execution
        if k % 50 == 7 {
            let again = run_tape(p, Tape::replay(o.fin.tape.clone()), false);
            *stats.entry("re-executions compared".into()).or_insert(0) += 1;
            if again.fin.hash != o.fin.hash || again.result != o.result {
                *stats.entry("re-executions that differed".into()).or_insert(0) += 1;
                let m = format!("history: the same run differs when repeated in one process ({:?})", again.result);
                if p.id == "C07" || again.result.is_err() {
                    let m = again.result.err().unwrap_or(m);
                    out(&format!("V {} {}", i, json!({"message": m, "tape": tape_json(&o.fin.tape), "repeat": true})));
                }
            }
        }
        let f = &o.fin;
        let s = match &f.sample {
            Some(s) if k < 3 && f.nontrivial => {
                let mut s = s.replace('\n', " ");
                if s.len() > 700 {
                    let mut e = 700;
                    while !s.is_char_boundary(e) {
                        e -= 1;
                    }
                    s.truncate(e);
                    s.push_str("...");
                }
                s
            }
            _ => String::new(),
        };
        out(&format!(
            "R {} {} {} {} {} {} {} {}",
            i, f.hash, f.sched_hash, f.nontrivial as u8, f.ops, f.switches, f.simulated, s
        ));
        i += stride;
        k += 1;
    }
    out(&format!("E {}", json!(stats)));
    0
}

/// one FILE: execute a replay file's runs silently; exit 0 ok, 3 violated
fn one(a: &[&str]) -> i32 {
    let (p, v) = load(a[0]);
    prepare();
    let o = run_file(p, &v, a.get(1) == Some(&"trace"));
    let mut res = json!({"hash": o.fin.hash, "message": null, "tape": tape_json(&o.fin.tape)});
    if let Some(t) = &o.fin.trace {
        res["trace"] = json!(t);
    }
    res["ops"] = json!(o.fin.ops);
    if let Err(m) = &o.result {
        res["message"] = json!(m);
    }
    out(&format!("O {}", res));
    if o.result.is_err() { 3 } else { 0 }
}
fn load(path: &str) -> (&'static Property, Value) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let v: Value = serde_json::from_str(&t).expect("replay file is not JSON");
    let p = find(v["property"].as_str().unwrap_or("")).expect("unknown property in replay file");
    (p, v)
}
/// Preceding runs of the process (if the failure needs them), then the run.
fn run_file(p: &Property, v: &Value, record: bool) -> Outcome {
    if let Some(a) = v["preceding_seeds"].as_array() {
        for s in a.iter().filter_map(|x| x.as_u64()) {
            let _ = run_tape(p, Tape::generate(s), false);
        }
    }
    let mk = || match v.get("tape") {
        Some(t) if t.is_object() => Tape::replay(tape_from(t)),
        _ => Tape::generate(v["seed"].as_u64().expect("seed")),
    };
    let o = run_tape(p, mk(), record);
    if v["repeat"].as_bool() == Some(true) && o.result.is_ok() {
        let mut b = run_tape(p, mk(), record);
        if b.result.is_ok() && b.fin.hash != o.fin.hash {
            b.result = Err(format!("history: the same run differs when repeated in one process ({:?})", b.result));
        }
        return b;
    }
    o
}

fn hashes(a: &[&str]) -> i32 {
    let p = find(a[0]).expect("property");
    let n: Vec<u64> = a[1..4].iter().map(|x| x.parse().unwrap()).collect();
    prepare();
    for i in n[1]..n[2] {
        let o = run_tape(p, Tape::generate(seed_of(n[0], p.id, i)), false);
        out(&format!("{} {:016x} {} {}", i, o.fin.hash, o.fin.ops, o.result.err().unwrap_or_default()));
    }
    0
}

// ---- minimisation ------------------------------------------------------------------

/// shrink FILE OUT SECONDS: minimise the tape of FILE, best so far in OUT
fn shrink(a: &[&str]) -> i32 {
    let (p, v) = load(a[0]);
    let secs: u64 = a[2].parse().unwrap();
    let end = Instant::now() + Duration::from_secs(secs);
    prepare();
    let first = run_file(p, &v, false);
    let want = match &first.result {
        Err(m) => kind(m).to_string(),
        Ok(()) => return 4,
    };
    let mut best = first.fin.tape.clone();
    let mut tries = 0u64;
    let size = |t: &TapeData| -> (usize, u128) {
        (t.iter().map(|s| s.len()).sum(), t.iter().flatten().map(|x| (*x).min(1 << 40) as u128).sum())
    };
    let mut attempt = |cand: TapeData, best: &mut TapeData| -> bool {
        if Instant::now() >= end {
            return false;
        }
        tries += 1;
        let o = run_tape(p, Tape::replay(cand), false);
        match &o.result {
            Err(m) if kind(m) == want && size(&o.fin.tape) < size(best) => {
                *best = o.fin.tape;
                let mut w = v.clone();
                w["tape"] = tape_json(best);
                w["message"] = json!(m);
                let _ = std::fs::write(format!("{}.tmp", a[1]), w.to_string());
                let _ = std::fs::rename(format!("{}.tmp", a[1]), a[1]);
                true
            }
            _ => false,
        }
    };
    loop {
        let before = size(&best);
        for s in [3usize, 1, 2, 0] {
            let mut c = best.clone();
            c[s].clear();
            attempt(c, &mut best);
            // cut the end
            let mut cut = best[s].len() / 2;
            while cut > 0 {
                let mut c = best.clone();
                let n = c[s].len();
                if cut < n {
                    c[s].truncate(n - cut);
                    if attempt(c, &mut best) {
                        continue;
                    }
                }
                cut /= 2;
            }
            // delete and zero chunks
            for mode in 0..2 {
                let mut chunk = (best[s].len() / 4).clamp(1, 64);
                loop {
                    let mut at = 0;
                    while at < best[s].len() && Instant::now() < end {
                        let mut c = best.clone();
                        let e = (at + chunk).min(c[s].len());
                        if mode == 0 {
                            c[s].drain(at..e);
                        } else {
                            if c[s][at..e].iter().all(|x| *x == 0) {
                                at += chunk;
                                continue;
                            }
                            c[s][at..e].iter_mut().for_each(|x| *x = 0);
                        }
                        if !attempt(c, &mut best) {
                            at += chunk;
                        } else if mode == 1 {
                            at += chunk;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk = (chunk / 3).max(1);
                }
            }
            // smaller values
            let mut at = 0;
            while at < best[s].len() && Instant::now() < end {
                let x = best[s][at];
                for y in [x / 16, x / 2, x.saturating_sub(1)] {
                    if y < x && at < best[s].len() && best[s][at] == x {
                        let mut c = best.clone();
                        c[s][at] = y;
                        if attempt(c, &mut best) {
                            break;
                        }
                    }
                }
                at += 1;
            }
        }
        if size(&best) >= before || Instant::now() >= end {
            break;
        }
    }
    out(&format!("T {} {:?}", tries, size(&best).0));
    0
}

// ---- reference of a fresh process ----------------------------------------------------

/// In a child process that only computes a reference: where the property leaves it.
static REFERENCE: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
static IS_REFERENCE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn is_reference() -> bool {
    IS_REFERENCE.load(std::sync::atomic::Ordering::SeqCst)
}
pub fn put_reference(s: String) {
    *REFERENCE.lock().unwrap() = Some(s);
}
/// Runs the property on this tape in a process in which no simulation ran before, up to
/// where it computes its reference.
pub fn fresh_reference(id: &str, tape: &TapeData) -> Result<String, String> {
    let mut c = spawn_with(&["fresh".into(), id.into()], true);
    {
        let mut i = c.stdin.take().expect("pipe");
        let _ = i.write_all(tape_json(tape).to_string().as_bytes());
    }
    let o = c.wait_with_output().map_err(|e| format!("HARNESS: {}", e))?;
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    let v = t.lines().find_map(|l| l.strip_prefix("F ")).and_then(|l| serde_json::from_str::<Value>(l).ok());
    match v {
        Some(Value::String(s)) => Ok(s),
        _ => Err(format!("HARNESS: no reference: {:?}", o.status)),
    }
}
fn fresh_child(id: &str) -> i32 {
    let p = find(id).expect("property");
    let mut s = String::new();
    let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut s);
    let v: Value = serde_json::from_str(&s).expect("tape");
    IS_REFERENCE.store(true, std::sync::atomic::Ordering::SeqCst);
    prepare();
    let _ = run_tape(p, Tape::replay(tape_from(&v)), false);
    let r = REFERENCE.lock().unwrap().take();
    out(&format!("F {}", json!(r)));
    0
}

// ---- parent --------------------------------------------------------------------------

fn spawn(args: &[String]) -> Child {
    spawn_with(args, false)
}
fn spawn_with(args: &[String], input: bool) -> Child {
    let exe = std::env::current_exe().expect("own path");
    let mut c = Command::new(exe);
    c.args(args);
    c.args(std::iter::repeat("-").take(PAD));
    c.stdin(if input { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped());
    if std::env::var_os("SIM_VERBOSE").is_none() {
        c.stderr(Stdio::null());
    }
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.spawn().expect("spawn")
}

struct Ran {
    /// what it printed after "O "
    out: Option<Value>,
    how: String,
}
/// Run a child to its end with a time limit.
fn child(args: &[String], secs: u64) -> Ran {
    let mut c = spawn(args);
    let so = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut v = None;
        for l in BufReader::new(so).lines().map_while(Result::ok) {
            if let Some(j) = l.strip_prefix("O ") {
                v = serde_json::from_str(j).ok();
            }
        }
        let _ = tx.send(v);
    });
    let end = Instant::now() + Duration::from_secs(secs);
    let how = loop {
        match c.try_wait() {
            Ok(Some(s)) => break format!("{}", s),
            _ if Instant::now() > end => {
                let _ = c.kill();
                let _ = c.wait();
                break "hang".to_string();
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let out = rx.recv_timeout(Duration::from_secs(5)).unwrap_or(None);
    Ran { out, how }
}
fn message_of(r: &Ran) -> Option<String> {
    match &r.out {
        Some(v) => v["message"].as_str().map(|s| s.to_string()),
        None if r.how == "hang" => Some(format!("no progress: the code under test ran for {} s without reaching a step of the simulation", HANG)),
        None => Some(format!("process death: the run ended its process ({})", r.how)),
    }
}

fn opt<'a>(a: &'a [&str], k: &str) -> Option<&'a str> {
    a.iter().position(|x| *x == k).and_then(|i| a.get(i + 1).copied())
}

struct Found {
    index: u64,
    message: String,
    tape: Option<Value>,
    repeat: bool,
}

fn check(a: &[&str]) -> i32 {
    let t0 = Instant::now();
    let p = match a.first().and_then(|x| find(x)) {
        Some(p) => p,
        None => {
            eprintln!("unknown property");
            return 2;
        }
    };
    let tier = opt(a, "--tier").unwrap_or("quick").to_string();
    let base: u64 = opt(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = opt(a, "--out").unwrap_or("/verif").to_string();
    let count: u64 = opt(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let cap = Duration::from_secs(opt(a, "--cap").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 240 }));
    let nw: u64 = opt(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);

    enum Msg {
        Line(usize, String),
        Eof(usize),
    }
    let (tx, rx) = mpsc::channel();
    struct W {
        child: Child,
        cur: Option<u64>,
        since: Instant,
        live: bool,
        next: u64,
    }
    let start = |i: usize, from: u64, tx: &mpsc::Sender<Msg>| -> W {
        let mut c = spawn(&["worker".into(), p.id.into(), base.to_string(), from.to_string(), nw.to_string(), count.to_string()]);
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                if tx.send(Msg::Line(i, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::Eof(i));
        });
        W { child: c, cur: None, since: Instant::now(), live: true, next: from }
    };
    let mut ws: Vec<W> = (0..nw as usize).map(|i| start(i, i as u64, &tx)).collect();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evals, mut ops, mut switches, mut simulated) = (0u64, 0u64, 0u64, 0i128);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut found: Vec<Found> = vec![];
    let mut ended = 0u64;
    let mut capped = false;
    while ws.iter().any(|w| w.live) {
        let lowest = found.iter().map(|f| f.index).min();
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(i, l)) => {
                let mut it = l.splitn(3, ' ');
                let tag = it.next().unwrap_or("");
                let x = it.next().unwrap_or("");
                let rest = it.next().unwrap_or("");
                match tag {
                    "S" => {
                        ws[i].cur = x.parse().ok();
                        ws[i].next = x.parse::<u64>().unwrap_or(0) + nw;
                        ws[i].since = Instant::now();
                        if lowest.is_some_and(|m| ws[i].cur.unwrap_or(0) > m) {
                            let _ = ws[i].child.kill();
                        }
                    }
                    "R" => {
                        ws[i].cur = None;
                        ws[i].since = Instant::now();
                        let f: Vec<&str> = rest.splitn(7, ' ').collect();
                        evals += 1;
                        let n = |k: usize| f.get(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
                        if n(2) == 1 {
                            hashes.insert(n(0));
                        }
                        scheds.insert(n(1));
                        ops += n(3);
                        switches += n(4);
                        simulated += f.get(5).and_then(|s| s.parse::<i128>().ok()).unwrap_or(0);
                        if let Some(s) = f.get(6) {
                            if !s.is_empty() && samples.len() < 6 {
                                samples.push(format!("run {} (seed {}): {}", x, seed_of(base, p.id, x.parse().unwrap_or(0)), s));
                            }
                        }
                    }
                    "V" => {
                        ws[i].cur = None;
                        ws[i].since = Instant::now();
                        evals += 1;
                        let v: Value = serde_json::from_str(rest).unwrap_or(json!({}));
                        let m = v["message"].as_str().unwrap_or("violation").to_string();
                        found.push(Found {
                            index: x.parse().unwrap_or(0),
                            message: m,
                            tape: Some(v["tape"].clone()),
                            repeat: v["repeat"].as_bool().unwrap_or(false),
                        });
                    }
                    "E" => {
                        let j = format!("{} {}", x, rest);
                        if let Ok(Value::Object(m)) = serde_json::from_str::<Value>(j.trim()) {
                            for (k, v) in m {
                                *stats.entry(k).or_insert(0) += v.as_u64().unwrap_or(0);
                            }
                        }
                        ws[i].cur = None;
                        ended += 1;
                    }
                    _ => {}
                }
            }
            Ok(Msg::Eof(i)) => {
                let _ = ws[i].child.kill();
                let _ = ws[i].child.wait();
                ws[i].live = false;
                if let Some(c) = ws[i].cur.take() {
                    let stopped = capped || lowest.is_some_and(|m| c > m);
                    if !stopped {
                        // it died in run c
                        found.push(Found { index: c, message: "process death".into(), tape: None, repeat: false });
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for w in ws.iter_mut().filter(|w| w.live) {
            if w.cur.is_some() && w.since.elapsed() > Duration::from_secs(HANG) {
                let _ = w.child.kill();
            }
        }
        if !capped && t0.elapsed() > cap {
            capped = true;
            for w in ws.iter_mut().filter(|w| w.live) {
                let _ = w.child.kill();
            }
        }
    }
    found.sort_by_key(|f| f.index);
    let mut verdict: Option<(String, String)> = None;
    let mut unconfirmed = vec![];
    if found.iter().any(|f| f.message.starts_with("HARNESS")) {
        for f in found.iter().filter(|f| f.message.starts_with("HARNESS")).take(3) {
            eprintln!("harness error in run {} (seed {}): {}", f.index, seed_of(base, p.id, f.index), f.message);
        }
        if found.iter().all(|f| f.message.starts_with("HARNESS")) {
            return 2;
        }
    }
    for f in found.iter().filter(|f| !f.message.starts_with("HARNESS")).take(4) {
        match confirm(p, base, nw, f, &dir) {
            Some((m, path)) => {
                verdict = Some((m, path));
                break;
            }
            None => unconfirmed.push(format!("run {} (seed {}): {}", f.index, seed_of(base, p.id, f.index), f.message)),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = stats.iter().filter(|(k, _)| k.starts_with("fault ")).collect();
    let other: BTreeMap<&String, &u64> = stats.iter().filter(|(k, _)| !k.starts_with("fault ")).collect();
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": format!("{}; distinct: different hash over the sequence of operations, their outcomes and their order", p.rule),
            "samples": samples,
            "runs_per_hour": (evals as f64 / wall * 3600.0) as u64,
            "operations": ops,
            "context_switches": switches,
            "simulated_seconds": (simulated as f64) / 1e9,
            "distinct_interleavings": scheds.len(),
            "faults_injected": faults,
            "counters": other,
            "workers_completed": ended,
            "time_cap_reached": capped,
            "real_components": "all of moledyn (set-up, argument parsing, systems, targets, agents, clocks, generators, linked list, analysis) and moledyn_proc's derive output, rand/rand_pcg/rand_distr, chrono, std",
            "stub_components": "system calls below std: file system, directory streams, clocks, entropy, argument vector (in-memory model), scheduling of the simulated processes",
        },
        "assumptions": [
            "the in-memory file system answers as POSIX prescribes for the calls std makes",
            "a crash keeps every byte handed to write(2) and loses everything still buffered in the process"
        ],
        "wall_s": wall,
        "violations": verdict.is_some() as u64,
    });
    let edir = format!("{}/evidence", dir);
    let _ = std::fs::create_dir_all(&edir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", edir, p.id), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    if let Some((m, path)) = verdict {
        println!("{}", m);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if !unconfirmed.is_empty() {
        eprintln!("runs that failed once and could not be reproduced: {:?}", unconfirmed);
        return 2;
    }
    if evals == 0 {
        eprintln!("no run was completed");
        return 2;
    }
    println!("{}: held on {} runs ({} distinct non-trivial) in {:.1} s", p.id, evals, hashes.len(), wall);
    0
}

/// Reproduce in a fresh process, minimise, write the replay file.
fn confirm(p: &Property, base: u64, nw: u64, f: &Found, dir: &str) -> Option<(String, String)> {
    let seed = seed_of(base, p.id, f.index);
    let rdir = format!("{}/out/replays", dir);
    let _ = std::fs::create_dir_all(&rdir);
    let path = format!("{}/{}_{}.json", rdir, p.id, seed);
    let tmp = format!("{}.cand", path);
    let mut v = json!({"property": p.id, "seed": seed, "run": f.index, "message": f.message});
    if let Some(t) = &f.tape {
        v["tape"] = t.clone();
    }
    if f.repeat {
        v["repeat"] = json!(true);
    }
    let put = |path: &str, v: &Value| std::fs::write(path, v.to_string()).expect("replay file");
    put(&tmp, &v);
    let one = |path: &str, trace: bool| {
        let mut a = vec!["one".to_string(), path.to_string()];
        if trace {
            a.push("trace".into());
        }
        child(&a, HANG)
    };
    let mut m = message_of(&one(&tmp, false));
    if m.is_none() {
        // does it need what happened in the process before?
        let mut n = 1u64;
        let all = f.index / nw;
        loop {
            let k = n.min(all);
            let pre: Vec<u64> = (1..=k).rev().map(|j| seed_of(base, p.id, f.index - j * nw)).collect();
            v["preceding_seeds"] = json!(pre);
            put(&tmp, &v);
            m = message_of(&child(&["one".to_string(), tmp.clone()], 240));
            if m.is_some() || k == all {
                break;
            }
            n *= 4;
        }
    }
    let Some(mut m) = m else {
        let _ = std::fs::remove_file(&tmp);
        return None;
    };
    v["message"] = json!(m);
    put(&path, &v);
    if v.get("preceding_seeds").is_none() && !m.starts_with("process death") && !m.starts_with("no progress") {
        put(&tmp, &v);
        let small = format!("{}.small", path);
        let _ = child(&["shrink".to_string(), tmp.clone(), small.clone(), "30".to_string()], 45);
        if std::fs::metadata(&small).is_ok() {
            let r = message_of(&one(&small, false));
            if r.as_deref().map(kind) == Some(kind(&m)) {
                let t = std::fs::read_to_string(&small).unwrap_or_default();
                if let Ok(w) = serde_json::from_str::<Value>(&t) {
                    v = w;
                    m = r.unwrap();
                }
            }
            let _ = std::fs::remove_file(&small);
        }
    }
    v["message"] = json!(m);
    put(&path, &v);
    let t = one(&path, true);
    if let Some(o) = &t.out {
        v["trace"] = o["trace"].clone();
        v["hash"] = o["hash"].clone();
    }
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    let _ = std::fs::remove_file(&tmp);
    let mut m = m;
    if m.len() > 3000 {
        let mut e = 3000;
        while !m.is_char_boundary(e) {
            e -= 1;
        }
        m.truncate(e);
    }
    Some((m, path))
}

/// replay FILE: exit 1 and the same violation if it reproduces
fn replay(a: &[&str]) -> i32 {
    let (p, v) = load(a[0]);
    let r = child(&["one".to_string(), a[0].to_string(), "trace".to_string()], 300);
    if let Some(o) = &r.out {
        if let Some(t) = o["trace"].as_array() {
            for l in t {
                println!("{}", l.as_str().unwrap_or(""));
            }
        }
    }
    match message_of(&r) {
        Some(m) => {
            println!("{}", m);
            let same = v["message"].as_str() == Some(&m) && r.out.as_ref().map_or(true, |o| v["hash"].is_null() || o["hash"] == v["hash"]);
            println!("{}", if same { "reproduced exactly" } else { "a different violation from the recorded one" });
            println!("VIOLATION property={} replay={}", p.id, a[0]);
            1
        }
        None => {
            println!("not reproduced: the property holds on this run");
            0
        }
    }
}
