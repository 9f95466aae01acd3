//! C16: histories of feeding, summarising, clearing and re-binning the three
//! accumulators, with the results going through misbehaving writers.
use super::common::*;
use crate::meta::An;
use crate::refan::*;
use crate::sim::*;
use moledyn::analysis::{Analysis, Bin, Pair, ProcessAnalysis, TimeAnalysis, TimeVecAnalysis, Var1, VarN, VarTime};
use moledyn::prelude::*;
use std::io;

type R = Result<(), String>;

trait Acc: Analysis + Bin + Default + Clone {
    const KIND: An;
    fn feed(&mut self, r: &Rec) -> R;
    fn summarise(&mut self);
}
impl Acc for TimeAnalysis {
    const KIND: An = An::TimeAnalysis;
    fn feed(&mut self, r: &Rec) -> R {
        self.add_ensemble(r[0].0);
        Ok(())
    }
    fn summarise(&mut self) {
        self.draw();
    }
}
impl Acc for TimeVecAnalysis {
    const KIND: An = An::TimeVecAnalysis;
    fn feed(&mut self, r: &Rec) -> R {
        self.add_ensemble(r.iter().map(|x| x.0).collect());
        Ok(())
    }
    fn summarise(&mut self) {
        self.draw();
    }
}
impl Acc for ProcessAnalysis {
    const KIND: An = An::ProcessAnalysis;
    fn feed(&mut self, r: &Rec) -> R {
        for (t, v) in r {
            let text = format!("({:?},{:?})", t, v);
            let p: Pair<f64> = text.parse().map_err(|e| format!("pair: {} refused: {:?}", text, e))?;
            self.add_pair(p);
        }
        self.add_ensemble();
        Ok(())
    }
    fn summarise(&mut self) {
        self.draw();
    }
}

/// A writer that accepts little at a time, is interrupted, or fails for good.
struct Sink {
    got: Vec<u8>,
    /// most bytes per call
    most: u64,
    interrupts: bool,
    /// byte position from which it refuses, and how
    limit: Option<(usize, u64)>,
    failed: bool,
    short: bool,
}
impl Sink {
    fn good() -> Sink {
        Sink { got: vec![], most: u64::MAX, interrupts: false, limit: None, failed: false, short: false }
    }
    fn drawn() -> Sink {
        let most = [u64::MAX, 1, 7, 40][with(|w| w.draw(tape::S::Io, 4)) as usize];
        let interrupts = with(|w| w.draw(tape::S::Io, 3)) == 2;
        let limit = if fchance(1, 4) { Some((f(400) as usize, f(3))) } else { None };
        Sink { got: vec![], most, interrupts, limit, failed: false, short: false }
    }
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupts && with(|w| w.chance(tape::S::Io, 1, 6)) {
            count("interrupted writer calls");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len();
        if self.most < n as u64 {
            n = 1 + with(|w| w.draw(tape::S::Io, self.most)) as usize;
            count("short writer calls");
            self.short = true;
        }
        if let Some((at, how)) = self.limit {
            let room = at.saturating_sub(self.got.len());
            if room == 0 {
                self.failed = true;
                count("failing writer calls");
                return match how {
                    0 => Ok(0),
                    1 => Err(io::Error::from_raw_os_error(libc::ENOSPC)),
                    _ => Err(io::ErrorKind::BrokenPipe.into()),
                };
            }
            n = n.min(room);
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.failed { Err(io::ErrorKind::BrokenPipe.into()) } else { Ok(()) }
    }
}

fn fired() -> usize {
    with(|w| {
        let p = me().expect("caller");
        w.procs[p].fired.len()
    })
}
fn text(b: &[u8]) -> Result<&str, String> {
    std::str::from_utf8(b).map_err(|_| "text: output is not text".to_string())
}
/// centre and counts of each line; what must not depend on the order
fn counts_of(t: &str) -> Vec<Vec<String>> {
    t.lines()
        .map(|l| {
            let c: Vec<&str> = l.split_whitespace().collect();
            c.iter().enumerate().filter(|(i, x)| *i == 0 || x.bytes().all(|b| b.is_ascii_digit())).map(|(_, x)| x.to_string()).collect()
        })
        .collect()
}

struct One<A> {
    acc: A,
    spec: AnSpec,
    recs: Vec<Rec>,
    drawn: bool,
}

fn gen_acc_spec(kind: An) -> AnSpec {
    let mut s = gen_spec(kind, 4);
    if s.bins() > 20_000.0 && !chance(1, 8) {
        s.form = Form::Num(19);
    }
    s.num_var = 10;
    s
}
fn bin<A: Acc>(a: &mut A, s: &AnSpec) -> R {
    match &s.form {
        Form::Num(n) => a.update_from_num_bin(s.min, s.max, *n),
        Form::Size(b, l) => a.update_from_bin_size(s.min, s.max, *b, *l),
    }
    .map_err(|e| format!("binning: {:?} refused: {:?}", s, e))
}
impl<A: Acc> One<A> {
    fn new() -> Result<Self, String> {
        let mut acc = A::default();
        let spec = if chance(1, 12) {
            count("default binnings");
            AnSpec { kind: A::KIND, num_var: 10, min: 0.0, max: 1e13, form: Form::Size(1e10, 1.2) }
        } else {
            let s = gen_acc_spec(A::KIND);
            bin(&mut acc, &s)?;
            acc.allocate_vectors();
            s
        };
        Ok(One { acc, spec, recs: vec![], drawn: false })
    }
    fn rebin(&mut self) -> R {
        let s = gen_acc_spec(A::KIND);
        let first = chance(1, 2);
        if first {
            self.acc.clear();
        }
        bin(&mut self.acc, &s)?;
        self.acc.allocate_vectors();
        if !first {
            self.acc.clear();
        }
        self.spec = s;
        self.recs.clear();
        self.drawn = false;
        count("re-binnings");
        Ok(())
    }
    fn clear(&mut self) {
        self.acc.clear();
        if chance(1, 6) {
            self.acc.clear();
        }
        self.recs.clear();
        self.drawn = false;
        count("clears");
    }
    fn rec(&self) -> Rec {
        let line = gen_record(&self.spec);
        parse_rec(A::KIND, &line).expect("own record")
    }
    fn feed(&mut self, r: Rec) -> R {
        for (t, _) in &r {
            let inside = self.spec.in_range(*t);
            let (a, b) = (self.acc.bin_pos(*t).is_some(), self.acc.lbin_pos(*t).is_some());
            if a != inside || b != inside {
                return Err(format!("range: {:e} is in a linear bin: {}, in a logarithmic bin: {}, in range {:?}: {}", t, a, b, self.spec, inside));
            }
        }
        self.acc.feed(&r)?;
        self.recs.push(r);
        Ok(())
    }
    fn check_text(&self, t: &[u8], log: bool) -> R {
        check_distribution(text(t)?, &self.spec, &self.recs, log).map_err(|e| format!("{} ({:?}, {} records)", e, self.spec, self.recs.len()))
    }
    fn check_line(&self, t: &[u8]) -> R {
        let t = text(t)?;
        if !t.ends_with('\n') || t.lines().count() != 1 {
            return Err(format!("row: {:?}", t));
        }
        check_row(&A::export_form(10), t.trim_end(), A::KIND, &self.recs)
    }
    /// report through a writer and the file system
    fn report(&mut self, dir: &str) -> R {
        if self.recs.is_empty() {
            return Ok(());
        }
        if !self.drawn {
            self.acc.summarise();
            self.drawn = true;
        }
        let prec = pick(&[10usize, 0, 3, 25]);
        match g(4) {
            0 | 1 => {
                let name = format!("d_{}.dat", g(3));
                let mut s = Sink::drawn();
                let before = fired();
                let r = self.acc.export(prec, &mut s, &dir.to_string(), &name);
                let hit = fired() > before;
                note(|| format!("export {:?} -> {:?}, {} bytes, writer failed {}, calls failed {}", self.spec, r.is_ok(), s.got.len(), s.failed, hit));
                match r {
                    Ok(()) => {
                        if s.failed {
                            return Err("lost: export succeeds although its writer failed".into());
                        }
                        self.check_line(&s.got)?;
                        for log in [false, true] {
                            let p = format!("{}/{}_distribution/{}", dir, if log { "logarithmic" } else { "linear" }, name);
                            let t = with(|w| w.vfs.file(&p).map(|x| x.to_vec())).ok_or_else(|| format!("lost: {} was not written", p))?;
                            self.check_text(&t, log).map_err(|e| format!("{} [{}]", e, p))?;
                        }
                        count("exports");
                        nontrivial();
                    }
                    Err(e) => {
                        if !s.failed && !hit {
                            return Err(format!("refused: export fails with {:?} although nothing failed", e));
                        }
                        if !e.is_io() {
                            return Err(format!("refused: export fails with {:?} instead of an I/O error", e));
                        }
                    }
                }
            }
            k => {
                let log = k == 3;
                let mut s = Sink::drawn();
                let r = if log { self.acc.export_log_scaled_distribution(prec, &mut s) } else { self.acc.export_distribution(prec, &mut s) };
                match r {
                    Ok(()) => {
                        if s.failed {
                            return Err("lost: a distribution is written with success although its writer failed".into());
                        }
                        self.check_text(&s.got, log)?;
                        count("distributions");
                        nontrivial();
                    }
                    Err(e) => {
                        if !s.failed {
                            return Err(format!("refused: distribution fails with {:?} although nothing failed", e));
                        }
                        if !e.is_io() {
                            return Err(format!("refused: distribution fails with {:?} instead of an I/O error", e));
                        }
                    }
                }
            }
        }
        let line = self.acc.export_mean_stddev(prec).map_err(|e| format!("row: {:?}", e))?;
        check_row(&A::export_form(10), &line, A::KIND, &self.recs)
    }
    /// the same records in another order, in a fresh or a used accumulator
    fn permuted(&mut self) -> R {
        if self.recs.is_empty() {
            return Ok(());
        }
        if !self.drawn {
            self.acc.summarise();
            self.drawn = true;
        }
        let mut p: One<A> = One { acc: A::default(), spec: self.spec.clone(), recs: vec![], drawn: false };
        if chance(1, 2) {
            // a used one
            p.acc = self.acc.clone();
            p.acc.clear();
        } else {
            bin(&mut p.acc, &self.spec)?;
            p.acc.allocate_vectors();
        }
        let mut recs = self.recs.clone();
        if recs.len() > 2000 {
            recs.reverse();
        } else {
            shuffle(&mut recs);
        }
        if A::KIND == An::ProcessAnalysis {
            for r in &mut recs {
                shuffle(r);
            }
        }
        for r in recs {
            p.feed(r)?;
        }
        p.acc.summarise();
        p.drawn = true;
        for log in [false, true] {
            let (mut a, mut b) = (Sink::good(), Sink::good());
            for (x, s) in [(&self.acc, &mut a), (&p.acc, &mut b)] {
                if log { x.export_log_scaled_distribution(10, s) } else { x.export_distribution(10, s) }.map_err(|e| format!("refused: {:?}", e))?;
            }
            let (x, y) = (counts_of(text(&a.got)?), counts_of(text(&b.got)?));
            if x != y {
                return Err(format!("order: counts {:?} and, in another order, {:?}", x, y));
            }
            p.check_text(&b.got, log)?;
        }
        let line = p.acc.export_mean_stddev(10).map_err(|e| format!("row: {:?}", e))?;
        check_row(&A::export_form(10), &line, A::KIND, &p.recs)?;
        count("permutations");
        Ok(())
    }
}

fn history<A: Acc>(dir: &str) -> R {
    let n = 1 + g(2) as usize;
    let mut all: Vec<One<A>> = (0..n).map(|_| One::new()).collect::<Result<_, _>>()?;
    sample(|| format!("{} accumulators, first {:?}", n, all[0].spec));
    let rounds = 1 + g(4);
    for round in 0..rounds {
        // interleaved feeding
        let m = if chance(1, 60) { 500 } else { [3, 8, 25][g(3) as usize] };
        for _ in 0..g(m * n as u64 + 1) {
            let k = g(n as u64) as usize;
            let r = all[k].rec();
            all[k].feed(r)?;
            if chance(1, 8) {
                yield_point();
            }
        }
        if chance(1, 250) {
            // tens of thousands of records
            let k = g(n as u64) as usize;
            let few: Vec<Rec> = (0..1 + g(3)).map(|_| all[k].rec()).filter(|r| r.len() <= 10).collect();
            if !few.is_empty() {
                for i in 0..66_000 + g(3000) as usize {
                    all[k].feed(few[i % few.len()].clone())?;
                }
                count("tens of thousands of records");
            }
        }
        for a in &mut all {
            for _ in 0..1 + g(2) {
                a.report(dir)?;
            }
            if chance(1, 3) {
                a.permuted()?;
            }
        }
        if round + 1 < rounds {
            for a in &mut all {
                if chance(1, 4) {
                    a.rebin()?;
                } else if a.drawn || chance(1, 2) {
                    a.clear();
                }
            }
        }
    }
    Ok(())
}

pub fn c16() -> R {
    draw_benign(true);
    let n = 1 + g(3) as usize;
    let specs: Vec<Spec<R>> = (0..n)
        .map(|i| {
            let dir = format!("/simfs/out{}", i);
            for s in ["linear", "logarithmic"] {
                with(|w| w.vfs.mkdirs(&format!("{}/{}_distribution", dir, s)));
            }
            let kind = g(3);
            let mut s = Spec::new(&format!("caller{}", i), &[], move || match kind {
                0 => history::<TimeAnalysis>(&dir),
                1 => history::<TimeVecAnalysis>(&dir),
                _ => history::<ProcessAnalysis>(&dir),
            });
            if fchance(1, 4) {
                let class = [None, Some(Class::OpenW), Some(Class::Write)][f(3) as usize];
                s.faults.push(Fault { class, nth: f(30) as u32, sticky: fchance(1, 4), kind: FaultKind::Errno(hard_errno()) });
            }
            s
        })
        .collect();
    for o in run_procs(specs) {
        match o.value {
            Ok(r) => r?,
            Err(p) => return Err(format!("panic: {}", p)),
        }
    }
    Ok(())
}
