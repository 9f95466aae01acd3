//! The reference analysis: what a directory of records has to be summarised
//! as, and the comparison with what an analysis directory holds.
use crate::meta::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Form {
    Num(usize),
    Size(f64, f64),
}
#[derive(Clone, Debug)]
pub struct AnSpec {
    pub kind: An,
    pub num_var: usize,
    pub min: f64,
    pub max: f64,
    pub form: Form,
}
/// time, value (value only for processes)
pub type Rec = Vec<(f64, f64)>;

#[derive(Clone, Debug)]
pub struct Group {
    pub key: Vec<String>,
    pub dist_name: String,
    pub recs: Vec<Rec>,
    /// stretches whose extent is not known: each may stand for any one of these
    pub torn: Vec<Vec<Vec<Rec>>>,
}

impl AnSpec {
    pub fn args(&self, p: &Prog, dir: &str, style: u64) -> Vec<String> {
        let mut a = lead(p);
        let f = |x: f64| match style % 3 {
            0 => format!("{}", x),
            1 => format!("{:e}", x),
            _ => format!("{:?}", x),
        };
        if self.kind == An::TimeVecAnalysis {
            a.push(self.num_var.to_string());
        }
        a.push(f(self.min));
        a.push(f(self.max));
        match &self.form {
            Form::Num(n) => a.push(n.to_string()),
            Form::Size(b, l) => {
                a.push(f(*b));
                a.push(f(*l));
            }
        }
        a.push(dir.to_string());
        a
    }
    pub fn lo(&self) -> f64 {
        if self.min < 1e-15 { 1e-15 } else { self.min }
    }
    /// bin width and ratio
    pub fn sizes(&self) -> (f64, f64) {
        match &self.form {
            Form::Num(n) => ((self.max - self.lo()) / *n as f64, (self.max / self.lo()).powf(1.0 / *n as f64)),
            Form::Size(b, l) => (*b, *l),
        }
    }
    pub fn bins(&self) -> f64 {
        (self.max - self.lo()) / self.sizes().0
    }
    pub fn in_range(&self, v: f64) -> bool {
        self.lo() <= v && v <= self.max
    }
    /// candidate bins of an in-range value
    fn cand(&self, v: f64, log: bool) -> (i64, i64) {
        let (b, l) = self.sizes();
        let (x, eps) = if log {
            let x = (v / self.lo()).ln() / l.ln();
            (x, 1e-9 * x.abs().max(1.0) + 4e-16 / (l - 1.0) * x.abs().max(1.0))
        } else {
            let x = (v - self.lo()) / b;
            (x, 1e-9 * x.abs().max(1.0) + 4e-16 * self.max / b)
        };
        (((x - eps).floor() as i64).max(0), ((x + eps).floor() as i64).max(0))
    }
}

pub fn parse_rec(kind: An, line: &str) -> Option<Rec> {
    match kind {
        An::TimeAnalysis => line.trim().parse().ok().map(|v| vec![(v, 0.0)]),
        An::TimeVecAnalysis => line.split_whitespace().map(|t| t.parse().ok().map(|v| (v, 0.0))).collect(),
        An::ProcessAnalysis => line.split_whitespace().map(parse_pair).collect(),
    }
}
fn parse_pair(t: &str) -> Option<(f64, f64)> {
    let t: String = t.chars().filter(|c| *c != '(' && *c != ')').collect();
    let mut i = t.split(',');
    let a = i.next()?.parse().ok()?;
    let b = i.next()?.parse().ok()?;
    if i.next().is_some() {
        return None;
    }
    Some((a, b))
}
/// What a record of which only this part reached the disk may be read as.
pub fn torn_alternatives(kind: An, part: &str, num_var: usize) -> Vec<Option<Rec>> {
    let mut v = vec![None];
    if let Some(r) = parse_rec(kind, part) {
        if kind != An::TimeVecAnalysis || r.len() == num_var {
            v.push(Some(r));
        }
    }
    if kind == An::ProcessAnalysis {
        let toks: Vec<&str> = part.split_whitespace().collect();
        for n in 1..=toks.len() {
            if n + 1 < toks.len() {
                continue;
            }
            if let Some(r) = toks[..n].iter().map(|t| parse_pair(t)).collect::<Option<Rec>>() {
                if !v.iter().flatten().any(|x| *x == r) {
                    v.push(Some(r));
                }
            }
        }
    }
    v
}

type Files = BTreeMap<String, Vec<u8>>;
type Rows = Vec<Vec<String>>;

pub struct Summary {
    ds: Vec<String>,
    stat: Vec<String>,
    rows: Rows,
}

fn text(f: &[u8]) -> Result<&str, String> {
    std::str::from_utf8(f).map_err(|_| "output is not text".to_string())
}

/// Parse the summary of an analysis directory; Err: malformed.
pub fn summary(files: &Files, dir: &str, p: &Prog) -> Result<Summary, String> {
    let top: Vec<&String> = files.keys().filter(|k| k.starts_with(dir) && k[dir.len()..].starts_with('/') && !k[dir.len() + 1..].contains('/')).collect();
    if top.len() != 1 {
        return Err(format!("summary: {} files directly in {}", top.len(), dir));
    }
    let t = text(&files[top[0]])?;
    if !t.is_empty() && !t.ends_with('\n') {
        return Err(format!("summary: last line of {} is cut short", top[0]));
    }
    let mut it = t.lines();
    let head: Vec<String> = match it.next() {
        Some(h) => h.split_whitespace().map(|s| s.to_string()).collect(),
        None => return Err(format!("summary: {} is empty", top[0])),
    };
    for f in p.ds {
        if head.iter().filter(|h| *h == f).count() != 1 {
            return Err(format!("summary: header {:?} does not name {} once", head, f));
        }
    }
    if head.len() != p.ds.len() + 3 {
        return Err(format!("summary: header {:?} does not have the data set's {} columns and three more", head, p.ds.len()));
    }
    let rows: Rows = it.map(|l| l.split_whitespace().map(|s| s.to_string()).collect()).collect();
    let stat: Vec<String> = head.iter().filter(|h| !p.ds.contains(&h.as_str())).cloned().collect();
    let ds: Vec<String> = head[..p.ds.len()].to_vec();
    if ds.iter().any(|d| !p.ds.contains(&d.as_str())) {
        return Err(format!("summary: data set columns do not come first: {:?}", head));
    }
    Ok(Summary { ds, stat, rows })
}

struct Stats {
    n: u64,
    /// mean, standard deviation
    ms: Vec<(f64, f64)>,
}

impl Summary {
    fn key(&self, row: &[String], p: &Prog) -> Result<Vec<String>, String> {
        if row.len() < self.ds.len() {
            return Err(format!("summary: row {:?} is cut short", row));
        }
        let mut k = vec![];
        for f in p.ds {
            let i = self.ds.iter().position(|d| d == f).unwrap();
            let t = &row[i];
            // integers stay integers; everything else is a float
            if t.bytes().all(|b| b.is_ascii_digit()) {
                k.push(t.clone());
            } else {
                let v: f64 = t.parse().map_err(|_| format!("summary: {} under {}", t, f))?;
                k.push(format!("{:?}", v));
            }
        }
        Ok(k)
    }
    fn stats(&self, row: &[String], kind: An) -> Result<Stats, String> {
        let s = &row[self.ds.len()..];
        let num = |t: &String| t.parse::<f64>().map_err(|_| format!("summary: statistic {:?}", t));
        let pos = |m: &str| self.stat.iter().position(|x| x.contains(m));
        let (e, m, d) = match (pos("ensemble"), pos("mean"), pos("std")) {
            (Some(e), Some(m), Some(d)) if m != d => (e, m, d),
            _ => return Err(format!("summary: statistic columns {:?}", self.stat)),
        };
        let int = |t: &String| t.parse::<u64>().map_err(|_| format!("summary: number of records {:?} under {:?}", t, self.stat[e]));
        if kind == An::TimeVecAnalysis {
            if s.len() % 2 != 1 || e == 1 {
                return Err(format!("summary: {} statistics in a row", s.len()));
            }
            let (n, rest) = if e == 0 { (&s[0], &s[1..]) } else { (&s[s.len() - 1], &s[..s.len() - 1]) };
            let mut ms = vec![];
            for c in rest.chunks(2) {
                let (a, b) = (num(&c[0])?, num(&c[1])?);
                ms.push(if m < d { (a, b) } else { (b, a) });
            }
            Ok(Stats { n: int(n)?, ms })
        } else {
            if s.len() != 3 {
                return Err(format!("summary: {} statistics in a row", s.len()));
            }
            Ok(Stats { n: int(&s[e])?, ms: vec![(num(&s[m])?, num(&s[d])?)] })
        }
    }
}

/// The statistics of one row, given the names of its columns.
pub fn row_stats(head: &str, row: &str, kind: An) -> Result<(u64, Vec<(f64, f64)>), String> {
    let stat: Vec<String> = head.trim_start_matches('#').split_whitespace().map(|s| s.to_string()).collect();
    let s = Summary { ds: vec![], stat, rows: vec![] };
    let r: Vec<String> = row.split_whitespace().map(|s| s.to_string()).collect();
    let st = s.stats(&r, kind)?;
    Ok((st.n, st.ms))
}
/// ... agree with the records.
pub fn check_row(head: &str, row: &str, kind: An, recs: &[Rec]) -> Result<(), String> {
    let (n, ms) = row_stats(head, row, kind)?;
    check_stats(&Stats { n, ms }, kind, recs, &[])
}

fn same_key(row: &[String], want: &[String]) -> bool {
    row.iter().zip(want).all(|(a, b)| {
        a == b
            || (b.contains(['.', 'e'])
                && match (a.parse::<f64>(), b.parse::<f64>()) {
                    (Ok(x), Ok(y)) => x.to_bits() == y.to_bits(),
                    _ => false,
                })
    })
}

fn mean_std(vals: &[f64]) -> (f64, f64, f64, f64) {
    let n = vals.len() as f64;
    let mean = vals.iter().sum::<f64>() / n;
    let absm = vals.iter().map(|v| v.abs()).sum::<f64>() / n;
    let var = vals.iter().map(|v| (v - mean) * (v - mean)).sum::<f64>() / n;
    let msq = vals.iter().map(|v| v * v).sum::<f64>() / n;
    (mean, var, absm, msq)
}
fn check_moments(what: &str, got: (f64, f64), vals: &[f64]) -> Result<(), String> {
    let (mean, var, absm, msq) = mean_std(vals);
    if !((got.0 - mean).abs() <= 1e-10 * absm) {
        return Err(format!("mean: {} is {:e}, {} values have {:e}", what, got.0, vals.len(), mean));
    }
    if !(got.1 >= 0.0 && (got.1 * got.1 - var).abs() <= 1e-9 * msq) {
        return Err(format!("stddev: {} is {:e}, {} values have {:e}", what, got.1, vals.len(), var.sqrt()));
    }
    Ok(())
}

/// Values per variable (one variable for single times and processes).
fn columns(kind: An, recs: &[Rec]) -> Vec<Vec<f64>> {
    match kind {
        An::TimeAnalysis => vec![recs.iter().map(|r| r[0].0).collect()],
        An::TimeVecAnalysis => {
            let n = recs.first().map_or(0, |r| r.len());
            (0..n).map(|i| recs.iter().map(|r| r[i].0).collect()).collect()
        }
        An::ProcessAnalysis => vec![recs.iter().flat_map(|r| r.iter().map(|x| x.1)).collect()],
    }
}

fn check_stats(s: &Stats, kind: An, recs: &[Rec], key: &[String]) -> Result<(), String> {
    if s.n != recs.len() as u64 {
        return Err(format!("records: {} reported for {:?}, {} recorded", s.n, key, recs.len()));
    }
    let cols = columns(kind, recs);
    if cols.len() != s.ms.len() {
        return Err(format!("summary: {} variables reported, {} recorded", s.ms.len(), cols.len()));
    }
    for (i, c) in cols.iter().enumerate() {
        if c.is_empty() {
            // no points, hence no mean
            continue;
        }
        check_moments(&format!("variable {} of {:?}", i, key), s.ms[i], c)?;
    }
    Ok(())
}

/// All ways the torn records of a group can have been read.
fn alternatives(g: &Group) -> Vec<Vec<Rec>> {
    let mut all = vec![g.recs.clone()];
    for t in &g.torn {
        let mut next = vec![];
        for a in &all {
            for o in t {
                let mut b = a.clone();
                b.extend(o.iter().cloned());
                next.push(b);
            }
        }
        all = next;
        if all.len() > 4096 {
            all.truncate(4096);
        }
    }
    all
}

/// Every group has its row, every row has its group, and the numbers agree.
/// Returns the records each group may have been read as.
pub fn check_summary(files: &Files, dir: &str, p: &Prog, spec: &AnSpec, groups: &[Group]) -> Result<Vec<Vec<Vec<Rec>>>, String> {
    let s = summary(files, dir, p)?;
    let mut used = vec![false; s.rows.len()];
    let keys: Vec<Vec<String>> = s.rows.iter().map(|r| s.key(r, p)).collect::<Result<_, _>>()?;
    let mut read = vec![];
    for g in groups {
        let mine: Vec<usize> = (0..s.rows.len()).filter(|i| same_key(&keys[*i], &g.key)).collect();
        if mine.len() > 1 {
            return Err(format!("row: {:?} has {} rows", g.key, mine.len()));
        }
        let alts = alternatives(g);
        if mine.is_empty() {
            match alts.iter().find(|a| a.is_empty()) {
                Some(a) => read.push(vec![a.clone()]),
                None => return Err(format!("row: none for {:?}, which has {} records", g.key, g.recs.len())),
            }
            continue;
        }
        used[mine[0]] = true;
        let st = s.stats(&s.rows[mine[0]], spec.kind)?;
        let mut first = None;
        let mut ok = vec![];
        for a in &alts {
            if a.is_empty() {
                if first.is_none() {
                    first = Some(format!("row: {:?} has one without any record", g.key));
                }
                continue;
            }
            match check_stats(&st, spec.kind, a, &g.key) {
                Ok(()) => ok.push(a.clone()),
                Err(e) => first = first.or(Some(e)),
            }
        }
        if ok.is_empty() {
            return Err(first.unwrap());
        }
        read.push(ok);
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return Err(format!("row: {:?} stands for no recorded configuration", s.rows[i]));
    }
    Ok(read)
}

/// The distribution files of all groups.
pub fn check_distributions(files: &Files, dir: &str, p: &Prog, spec: &AnSpec, groups: &[Group], read: &[Vec<Vec<Rec>>]) -> Result<(), String> {
    let _ = p;
    let mut expected = 0;
    for (g, cands) in groups.iter().zip(read) {
        if cands.iter().any(|c| c.is_empty()) {
            continue;
        }
        let mut texts = vec![];
        for log in [false, true] {
            let sub: Vec<&String> = files
                .keys()
                .filter(|k| {
                    k.starts_with(dir) && k[dir.len()..].starts_with('/') && {
                        let r = &k[dir.len() + 1..];
                        match r.find('/') {
                            Some(i) => r[..i].contains("log") == log && (log || r[..i].contains("lin")) && r[i + 1..] == g.dist_name,
                            None => false,
                        }
                    }
                })
                .collect();
            if sub.len() != 1 {
                return Err(format!("distribution: {} {} files {}", sub.len(), if log { "logarithmic" } else { "linear" }, g.dist_name));
            }
            expected += 1;
            texts.push((log, text(&files[sub[0]])?, sub[0]));
        }
        // one of the possible readings explains both files
        let mut first = None;
        let ok = cands.iter().any(|recs| {
            texts.iter().all(|(log, t, name)| match check_distribution(t, spec, recs, *log) {
                Ok(()) => true,
                Err(e) => {
                    let (k, r) = e.split_once(':').unwrap_or(("distribution", &e));
                    first.get_or_insert(format!("{}:{} [{}]", k, r, name));
                    false
                }
            })
        });
        if !ok {
            return Err(first.unwrap());
        }
    }
    let have = files.keys().filter(|k| k.starts_with(&format!("{}/", dir)) && k[dir.len() + 1..].contains('/')).count();
    if have != expected {
        return Err(format!("distribution: {} files, {} expected", have, expected));
    }
    Ok(())
}

pub fn check_distribution(t: &str, spec: &AnSpec, recs: &[Rec], log: bool) -> Result<(), String> {
    if !t.is_empty() && !t.ends_with('\n') {
        return Err("distribution: last line is cut short".into());
    }
    let nvar = match spec.kind {
        An::TimeVecAnalysis => recs[0].len(),
        _ => 1,
    };
    let (b, l) = spec.sizes();
    let lo = spec.lo();
    // samples: per variable (position, value)
    let samples: Vec<Vec<(f64, f64)>> = match spec.kind {
        An::ProcessAnalysis => vec![recs.iter().flatten().cloned().collect()],
        _ => (0..nvar).map(|i| recs.iter().map(|r| r[i]).collect()).collect(),
    };
    #[derive(Default)]
    struct Ref {
        must: u64,
        may: u64,
        vals: Vec<f64>,
    }
    let mut want: Vec<BTreeMap<i64, Ref>> = vec![];
    let mut total = vec![0u64; nvar];
    for (i, s) in samples.iter().enumerate() {
        let mut m: BTreeMap<i64, Ref> = BTreeMap::new();
        for (x, v) in s {
            if !spec.in_range(*x) {
                continue;
            }
            total[i] += 1;
            let (a, z) = spec.cand(*x, log);
            if a == z {
                let r = m.entry(a).or_default();
                r.must += 1;
                r.vals.push(*v);
            } else {
                for k in a..=z {
                    m.entry(k).or_default().may += 1;
                }
            }
        }
        want.push(m);
    }
    let mut got: Vec<BTreeMap<i64, u64>> = vec![BTreeMap::new(); nvar];
    for line in t.lines() {
        let c: Vec<&str> = line.split_whitespace().collect();
        let width = match spec.kind {
            An::TimeAnalysis => 3,
            An::TimeVecAnalysis => 1 + 2 * nvar,
            An::ProcessAnalysis => 4,
        };
        if c.len() != width {
            return Err(format!("distribution: row {:?} has {} columns, not {}", line, c.len(), width));
        }
        let f = |i: usize| c[i].parse::<f64>().map_err(|_| format!("distribution: row {:?}", line));
        let u = |i: usize| c[i].parse::<u64>().map_err(|_| format!("distribution: row {:?}", line));
        let centre = f(0)?;
        let x = if log { (centre / lo).ln() / l.ln() } else { (centre - lo) / b } - 0.5;
        let k = x.round() as i64;
        if !((x - k as f64).abs() <= 0.05) || k < 0 {
            return Err(format!("centre: {:e} is the centre of no {} bin", centre, if log { "logarithmic" } else { "linear" }));
        }
        let mut any = false;
        for i in 0..nvar {
            let n = if spec.kind == An::TimeVecAnalysis { u(1 + 2 * i)? } else { u(1)? };
            any |= n > 0;
            if n > 0 && got[i].insert(k, n).is_some() {
                return Err(format!("bin: {} listed twice", k));
            }
            match spec.kind {
                An::ProcessAnalysis => {
                    if let Some(r) = want[0].get(&k) {
                        if r.may == 0 && r.must == n {
                            check_moments(&format!("bin {}", k), (f(2)?, f(3)?), &r.vals).map_err(|e| format!("bin {}", e))?;
                        }
                    }
                }
                _ => {
                    let d = if spec.kind == An::TimeVecAnalysis { f(2 + 2 * i)? } else { f(2)? };
                    let width = if log { lo * l.powf(k as f64) * (l - 1.0) } else { b };
                    let c = d * width * recs.len() as f64;
                    if !((c - n as f64).abs() <= 1e-6 * (n as f64).max(1e-3)) {
                        return Err(format!("density: {:e} in bin {} stands for {} samples, not {}", d, k, c, n));
                    }
                }
            }
        }
        if !any {
            return Err(format!("bin: {} listed without a sample", k));
        }
    }
    for i in 0..nvar {
        let sum: u64 = got[i].values().sum();
        if sum != total[i] {
            return Err(format!("counts: variable {} adds up to {}, {} samples are in range", i, sum, total[i]));
        }
        for (k, n) in &got[i] {
            let (a, z) = want[i].get(k).map_or((0, 0), |r| (r.must, r.must + r.may));
            if *n < a || *n > z {
                return Err(format!("bin: {} of variable {} has {} samples, not {}..{}", k, i, n, a, z));
            }
        }
        for (k, r) in &want[i] {
            if r.must > 0 && !got[i].contains_key(k) {
                return Err(format!("bin: {} of variable {} with {} samples is not listed", k, i, r.must));
            }
        }
    }
    Ok(())
}
