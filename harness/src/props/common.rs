//! Building blocks of the file-backed scenarios.
use crate::jobs::*;
use crate::meta::*;
use crate::programs::PROGRAMS;
use crate::refan::*;
use crate::sim::vfs::normalise;
use crate::sim::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub type Files = BTreeMap<String, Vec<u8>>;

/// How a program run ended, as its caller sees it.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Io(String),
    Other(String),
    Panic(String),
    Crashed,
}

pub struct Run {
    pub end: End,
    pub shared: Shared,
    pub id: usize,
    pub fired: Vec<String>,
}

pub struct Launch {
    pub prog: &'static Prog,
    pub args: Vec<String>,
    pub job: Job,
    pub faults: Vec<Fault>,
    /// done before in the same process and thread
    /// scheduling points to let pass before the start
    pub delay: u64,
    pub before: Vec<(&'static Prog, Vec<String>, Job)>,
}

/// Run the programs concurrently to completion.
pub fn launch(ls: Vec<Launch>) -> Vec<Run> {
    let mut shareds: Vec<Shared> = vec![];
    let mut specs = vec![];
    for l in ls {
        let sh: Shared = Arc::new(Mutex::new(Report::default()));
        shareds.push(sh.clone());
        let job = Job { args: l.args.clone(), ..l.job };
        let prog = l.prog;
        // a program that takes its arguments from its caller sees others in the process
        let argv_of = |prog: &Prog, args: &[String]| if prog.fixed { vec!["/bin/host".to_string(), "host".to_string()] } else { args.to_vec() };
        let argv = argv_of(prog, &l.args);
        let own_argv = argv.clone();
        let before: Vec<_> = l.before.into_iter().map(|(p, a, j)| (p, argv_of(p, &a), Job { args: a, ..j })).collect();
        note(|| format!("launch {} {:?}", prog.name, job.args));
        let delay = l.delay;
        let mut s = Spec::new(prog.name, &argv, move || {
            for _ in 0..delay {
                yield_point();
            }
            for (p, a, j) in before {
                count("earlier simulation in the same process");
                exec_args(&a);
                install(j, Shared::default());
                let _ = (p.run)();
                exec_args(&own_argv);
            }
            install(job, sh);
            let r = (prog.run)();
            ended();
            match r {
                Ok(()) => End::Ok,
                Err(e) if e.is_io() => End::Io(e.to_string()),
                Err(e) => End::Other(e.to_string()),
            }
        });
        s.faults = l.faults;
        specs.push(s);
    }
    let outs = run_procs(specs);
    outs.into_iter()
        .zip(shareds)
        .map(|(o, shared)| Run {
            end: if o.crashed {
                End::Crashed
            } else {
                match o.value {
                    Ok(e) => e,
                    Err(p) => End::Panic(p),
                }
            },
            shared,
            id: o.id,
            fired: o.fired,
        })
        .collect()
}
impl Run {
    pub fn report(&self) -> Report {
        self.shared.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
}

pub fn pick_prog(pred: impl Fn(&Prog) -> bool) -> &'static Prog {
    let v: Vec<&'static Prog> = PROGRAMS.iter().filter(|p| pred(p)).collect();
    v[g(v.len() as u64) as usize]
}

pub fn files(dir: &str) -> Files {
    with(|w| w.vfs.files_below(&normalise(CWD, dir)))
}
pub fn all_files() -> Files {
    with(|w| w.vfs.files_below("/simfs"))
}
pub fn all_dirs() -> Vec<String> {
    with(|w| w.vfs.dirs_below("/simfs"))
}
pub fn abs(dir: &str) -> String {
    normalise(CWD, dir)
}

pub fn gen_spec(kind: An, max_var: u64) -> AnSpec {
    let lo = pick(&[0.0, 1e-3, 0.5, 1.0, 1e-6, 10.0, 1e-12, 0.1]);
    let span = pick(&[1.0, 0.5, 9.0, 99.0, 1e4, 2.3, 1e-1 + 0.6]);
    let (min, max) = if lo == 0.0 { (0.0, pick(&[1.0, 10.0, 100.0, 0.7, 1e-3])) } else { (lo, lo * (1.0 + span)) };
    let eff = if min < 1e-15 { 1e-15 } else { min };
    let form = if chance(1, 40) {
        // now and then more bins than sixteen bits count
        let n = 60_000 + g(60_000);
        count("analyses with very many bins");
        if chance(1, 2) { Form::Num(n as usize) } else { Form::Size((max - eff) / (n as f64 + 0.4), (max / eff).powf(1.0 / (n as f64 + 0.4))) }
    } else if chance(1, 2) {
        Form::Num(pick(&[10, 11, 17, 100, 30, 1000, 999]))
    } else {
        let k = match g(4) {
            0 => 1.0 + g(60) as f64,
            1 => 0.3 + g(40) as f64 * 0.25,
            2 => 1.0 + f64::from(g(1 << 20) as u32) / 10000.0 * 5.0,
            _ => 10.0 + g(100) as f64 + 0.51,
        };
        let b = if chance(1, 3) { pick(&[0.1, 0.01, 0.05, 0.3, 1.0]) } else { (max - eff) / k };
        let b = if (max - eff) / b > 3000.0 || b > 4.0 * max { (max - eff) / k } else { b };
        let m = pick(&[0.7, 1.0, 5.5, 12.0, 33.3, 90.0]);
        let l = if chance(1, 2) { pick(&[1.2, 2.0, 1.5, 10.0, 1.1]) } else { (max / eff).powf(1.0 / m) };
        let l = if (max / eff).ln() / l.ln() > 3000.0 || l < 1.0001 { (max / eff).powf(1.0 / m) } else { l };
        Form::Size(b, l)
    };
    AnSpec { kind, num_var: 1 + g(max_var) as usize, min, max, form }
}

/// A time for a histogram: often at or near an edge.
pub fn gen_time(s: &AnSpec) -> f64 {
    let (b, l) = s.sizes();
    let lo = s.lo();
    let v = match g(10) {
        0 => s.max,
        1 => lo,
        2 => s.max * (1.0 + 1e-9 + g(3) as f64),
        3 => lo * 0.5,
        4 => lo + b * g(1 + ((s.max - lo) / b) as u64) as f64,
        5 => lo * l.powi(g(1 + ((s.max / lo).ln() / l.ln()) as u64) as i32),
        6 => s.max - (s.max - lo) * g(1000) as f64 * 1e-5,
        7 => lo * (s.max / lo).powf(g(1_000_000) as f64 / 1e6),
        8 => lo + (s.max - lo) * g(20) as f64 / 20.0,
        _ => lo + (s.max - lo) * (g(1_000_000) as f64 + 0.5) / 1e6,
    };
    if v < 1e-15 && s.min == 0.0 && v != 0.0 { 1e-15 } else { v }
}
fn gen_value() -> f64 {
    match g(6) {
        0 => -1.0 - g(5) as f64,
        1 => (g(2001) as f64 - 1000.0) * 1e-3 + 5e-4,
        2 => 1e6 + g(100) as f64,
        3 => [1e-90, 1e90][g(2) as usize],
        4 => 3.0,
        _ => g(1000) as f64 + 0.25,
    }
}
pub fn ftext(x: f64) -> String {
    match g(4) {
        0 => format!("{:e}", x),
        1 => format!("{}", x),
        2 => format!("{:.5e}", x),
        _ => format!("{:?}", x),
    }
}
/// One record as a simulation would write it.
pub fn gen_record(s: &AnSpec) -> String {
    match s.kind {
        An::TimeAnalysis => ftext(gen_time(s)),
        An::TimeVecAnalysis => {
            let sep = pick(&["\t", " ", "  "]);
            let v: Vec<String> = (0..s.num_var).map(|_| ftext(gen_time(s))).collect();
            format!("{}{}", v.join(sep), if chance(1, 2) { sep } else { "" })
        }
        An::ProcessAnalysis => {
            // a process may end before its first point
            let n = if chance(1, 8) { 0 } else if chance(1, 40) { 20 + g(100) } else { 1 + g(5) };
            let mut v: Vec<String> = vec![];
            for _ in 0..n {
                let t = gen_time(s);
                v.push(format!("({},{})", ftext(t), ftext(gen_value())));
            }
            let sep = pick(&[" ", "\t"]);
            format!("{}{}", v.join(sep), if chance(1, 2) { sep } else { "" })
        }
    }
}

pub struct Unit {
    pub cfg: Config,
    pub recs: Vec<String>,
}
pub struct Plan {
    pub prog: &'static Prog,
    pub spec: AnSpec,
    pub dir: String,
    pub units: Vec<Unit>,
}

/// Configurations, index sets and records for one data directory.
pub fn gen_plan(prog: &'static Prog, max_groups: u64, max_files: u64, max_recs: u64, taste: Taste) -> Plan {
    // now and then a large directory
    let scale = if chance(1, 40) { 1 + g(3) } else { 0 };
    gen_plan_of(scale, prog, max_groups, max_files, max_recs, taste)
}
pub fn gen_plan_of(scale: u64, prog: &'static Prog, max_groups: u64, max_files: u64, max_recs: u64, taste: Taste) -> Plan {
    let spec = gen_spec(prog.an, if chance(1, 20) { 14 } else { 4 });
    let sparse = prog.an == An::ProcessAnalysis && chance(1, 8);
    let base = gen_config(prog, taste);
    let dir = base.dir();
    let mut cfgs = vec![base.clone()];
    for _ in 0..if scale == 4 { 45 + g(40) } else if scale == 1 { 6 + g(7) } else { g(max_groups) } {
        let from = cfgs[g(cfgs.len() as u64) as usize].clone();
        let c = vary(&from, prog);
        if !cfgs.iter().any(|d| d.key(prog) == c.key(prog)) {
            cfgs.push(c);
        }
    }
    let mut units: Vec<Unit> = vec![];
    for c in &cfgs {
        let n = if scale == 2 && units.is_empty() { 8 + g(5) } else { 1 + g(max_files) };
        let mut first = true;
        for k in 0..n {
            let mut c = c.clone();
            if !first {
                vary_other(&mut c, prog);
                set_index(&mut c, 100 + k as usize * 7);
            }
            if units.iter().any(|u| u.cfg.file_key(prog) == c.file_key(prog)) {
                continue;
            }
            first = false;
            let long = scale == 3 && units.is_empty();
            if long {
                count("long data file");
            }
            let recs = (0..if long { 150 + g(max_recs.max(4) * 60) } else { g(max_recs + 1) })
                .map(|_| if sparse && chance(2, 3) { String::new() } else { gen_record(&spec) })
                .collect();
            units.push(Unit { cfg: c, recs });
        }
    }
    Plan { prog, spec, dir, units }
}

impl Plan {
    pub fn launches(&self, faults: &mut dyn FnMut(usize) -> Vec<Fault>) -> Vec<Launch> {
        self.units
            .iter()
            .enumerate()
            .map(|(i, u)| Launch {
                before: vec![],
                delay: 0,
                prog: self.prog,
                args: u.cfg.args(self.prog, g(u64::MAX)),
                job: Job::new(vec![], Work::Lines(u.recs.clone(), pick(&[Flush::Each, Flush::Every(3), Flush::End]))),
                faults: faults(i),
            })
            .collect()
    }
    /// Write all data files with the real programs, in concurrent waves.
    pub fn produce(&self) -> Result<Vec<Run>, String> {
        let mut runs = vec![];
        let mut ls = self.launches(&mut |_| vec![]);
        while !ls.is_empty() {
            let n = (1 + g(4) as usize).min(ls.len());
            let rest = ls.split_off(n);
            runs.extend(launch(ls));
            ls = rest;
        }
        for (r, u) in runs.iter().zip(&self.units) {
            if r.end != End::Ok || !r.report().completed {
                return Err(format!("set-up: program {} ended with {:?} for {:?}", self.prog.name, r.end, u.cfg));
            }
        }
        Ok(runs)
    }
    /// The groups an analysis has to report, given each unit's run.
    pub fn groups(&self, runs: &[Run]) -> Vec<Group> {
        let mut gs: Vec<Group> = vec![];
        for (u, r) in self.units.iter().zip(runs) {
            let key = u.cfg.key(self.prog);
            let rep = r.report();
            let recs = u.recs.iter().map(|l| parse_rec(self.spec.kind, l).expect("own record"));
            match gs.iter_mut().find(|x| x.key == key) {
                Some(x) => x.recs.extend(recs),
                None => gs.push(Group { key, dist_name: rep.dist_name.clone(), recs: recs.collect(), torn: vec![] }),
            }
        }
        gs
    }
    pub fn analysis(&self, spec: &AnSpec, faults: Vec<Fault>) -> Launch {
        // the data directory may be given through a symbolic link
        let style = g(3);
        let mut dir = self.dir.clone();
        if with(|w| w.vfs.is_dir(&abs(&self.dir))) && chance(1, 10) {
            dir = "alias".to_string();
            with(|w| w.vfs.link(&abs("alias"), &abs(&self.dir)));
            count("directory through a link");
        }
        Launch {
            before: vec![],
            delay: 0,
            prog: self.prog,
            args: spec.args(self.prog, &dir, style),
            job: Job::new(vec![], Work::None),
            faults,
        }
    }
}

/// Data files may be renamed, and have been touched or brought from a machine whose clock
/// was wrong.
pub fn rearrange(dir: &str) {
    if !chance(1, 4) {
        return;
    }
    let d = abs(dir);
    let now = with(|w| w.now);
    for (k, _) in files(dir) {
        if vfs::parent(&k) != d {
            continue;
        }
        let mut k = k;
        if chance(1, 2) {
            let b = vfs::base(&k).to_string();
            let n = pick(&["moved.dat", "data", ".hidden_run", "run 1.txt", "RUN.DAT", "x.dat.bak", "old~", "brief_result.dat", "analysis_x", "\u{10fee9}.dat"]);
            let to = format!("{}/{}", d, pick(&[n.to_string(), format!("{}.1", b), format!(".{}", b), b.replace("_", "-")]));
            with(|w| {
                if w.vfs.get(&to).is_none() && vfs::base(&to).len() < 250 {
                    let nd = w.vfs.nodes.remove(&k).unwrap();
                    w.vfs.nodes.insert(to.clone(), nd);
                    w.count("data file renamed", 1);
                    k = to;
                }
            });
        }
        if chance(1, 2) {
            let t = now - pick(&[-86_400i64, -3600, -1, 0, 1, 3600, 86_400, 400 * 86_400]) * 1_000_000_000;
            with(|w| {
                if let Some(vfs::Node::File(j)) = w.vfs.get(&k).cloned() {
                    w.vfs.inodes[j].mtime = t;
                }
            });
        }
    }
}

/// Things in the data directory that are no data of this program.
pub fn add_foreign(dir: &str, own: &Files) -> usize {
    add_foreign_of(false, dir, own)
}
/// `odd`: also links and names that are no text
pub fn add_foreign_of(odd: bool, dir: &str, own: &Files) -> usize {
    let d = abs(dir);
    let n = g(5);
    for i in 0..n {
        let p = format!("{}/{}", d, pick(&["a_readme.txt", "zz.bin", "empty", "README", "0notes", "RTS_x.dat", ".hidden", "half.dat", "\u{10fee9}t\u{10fee9}.txt", "*?\n"][..if odd { 10 } else { 8 }]));
        let p = if with(|w| w.vfs.get(&p).is_some()) { format!("{}{}", p, i) } else { p };
        match g(7) {
            0 => with(|w| w.vfs.put(&p, b"")),
            1 => with(|w| w.vfs.put(&p, b"notes: on these runs\nnothing: here\n1.0\n2.0\n")),
            2 => {
                let v: Vec<u8> = (0..g(200)).map(|_| g(256) as u8).collect();
                with(|w| w.vfs.put(&p, &v));
            }
            3 => with(|w| w.vfs.mkdirs(&format!("{}_dir", p))),
            4 => {
                // a sub-directory with copies of data files
                for (k, v) in own.iter().take(3) {
                    let q = format!("{}/sub/{}", d, vfs::base(k));
                    with(|w| w.vfs.put(&q, v));
                }
            }
            5 => {
                // the start of a data file, cut inside its parameters
                if let Some((_, v)) = own.iter().next() {
                    let t = String::from_utf8_lossy(v).into_owned();
                    let ls: Vec<&str> = t.split_inclusive('\n').collect();
                    let cut: usize = ls.iter().take(1 + g(4) as usize).map(|l| l.len()).sum();
                    with(|w| w.vfs.put(&p, &v[..cut]));
                }
            }
            _ => with(|w| w.vfs.put(&p, b"\n\n\n1 2 3\n")),
        }
        count("foreign entry");
    }
    if chance(1, 60) {
        // a crowded directory
        for i in 0..40 + g(300) {
            with(|w| match i % 3 {
                0 => w.vfs.put(&format!("{}/plot_{}.png", d, i), b"\x89PNG\r\n"),
                1 => w.vfs.put(&format!("{}/{}_note.txt", d, i), b"see: above\n"),
                _ => w.vfs.mkdirs(&format!("{}/old{}", d, i)),
            });
        }
        count("crowded directory");
    }
    if odd && chance(1, 5) {
        // some data files are links to files stored elsewhere; a linked directory
        for k in own.keys().filter(|k| vfs::parent(k) == d) {
            if chance(1, 2) {
                let to = format!("{}/{}", abs("store"), vfs::base(k));
                with(|w| {
                    if let Some(nd @ vfs::Node::File(_)) = w.vfs.get(k).cloned() {
                        w.vfs.mkdirs(&abs("store"));
                        if w.vfs.get(&to).is_none() {
                            w.vfs.nodes.remove(k);
                            w.vfs.nodes.insert(to.clone(), nd);
                            w.vfs.link(k, &to);
                        }
                    }
                });
                count("data file through a link");
            }
        }
        if chance(1, 2) {
            with(|w| {
                w.vfs.mkdirs(&abs("store"));
                w.vfs.link(&format!("{}/linked_dir", d), &abs("store"));
            });
        }
    }
    n as usize
}

/// Directories named like analysis results directly below the data directory.
pub fn analysis_dirs(dir: &str) -> Vec<String> {
    let d = abs(dir);
    with(|w| {
        w.vfs
            .children(&d)
            .into_iter()
            .filter(|c| c.starts_with("analysis_"))
            .map(|c| format!("{}/{}", d, c))
            .filter(|c| w.vfs.is_dir(c))
            .collect()
    })
}
/// The directory an analysis wrote its files to.
pub fn dir_of(id: usize) -> Vec<String> {
    with(|w| {
        let mut v: Vec<String> = vec![];
        for (k, n) in &w.vfs.nodes {
            if let vfs::Node::File(i) = n {
                if w.vfs.inodes[*i].writers & (1u128 << (id & 127)) != 0 {
                    let c = match k.find("/analysis_") {
                        Some(at) => match k[at + 1..].find('/') {
                            Some(e) => k[..at + 1 + e].to_string(),
                            None => k.clone(),
                        },
                        None => k.clone(),
                    };
                    if !v.contains(&c) {
                        v.push(c);
                    }
                }
            }
        }
        v
    })
}

/// Files that existed before must still be there unchanged.
pub fn untouched(before: &Files, what: &str) -> Result<(), String> {
    let now = all_files();
    for (k, v) in before {
        match now.get(k) {
            None => return Err(format!("removed: {} by {}", k, what)),
            Some(x) if x != v => return Err(format!("changed: {} by {}", k, what)),
            _ => {}
        }
    }
    Ok(())
}

pub fn hard_errno() -> i32 {
    [libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EROFS, libc::EDQUOT, libc::ENOMEM][f(7) as usize]
}
