//! Scenarios over the simulated machine's file system: C01 to C07 and C14.
use super::common::*;
use crate::jobs::*;
use crate::md::MdJob;
use crate::meta::*;
use crate::refan::*;
use crate::sim::*;
use moledyn::prelude::{Error, ErrorCode};

type Res = Result<(), String>;

fn is_marker(l: &str) -> bool {
    l.contains("DATA STARTS")
}

// ---- C01 ---------------------------------------------------------------------
pub fn c01() -> Res {
    draw_benign(true);
    let mut ls = vec![];
    let mut cfgs: Vec<(&'static Prog, Config, Vec<String>)> = vec![];
    for _ in 0..1 + g(3) {
        let p = pick_prog(|_| true);
        let c = gen_config(p, Taste::Wild);
        if cfgs.iter().any(|(q, d, _)| q.name == p.name && d.file_key(q) == c.file_key(p)) {
            continue;
        }
        let spec = gen_spec(p.an, 3);
        let recs: Vec<String> = (0..g(4)).map(|_| if chance(1, 4) { pick(&["x: y", "", "a\tb", " 1 ", ":"]).to_string() } else { gen_record(&spec) }).collect();
        let mut job = Job::new(vec![], Work::Lines(recs.clone(), pick(&[Flush::Each, Flush::End])));
        job.probes = vec![Probe::Own, Probe::Mutants(1 + g(5))];
        ls.push(Launch { before: vec![], delay: 0, prog: p, args: c.args(p, g(u64::MAX)), job, faults: vec![] });
        cfgs.push((p, c, recs));
    }
    sample(|| format!("{:?}", cfgs.iter().map(|(p, c, _)| (p.name, c)).next()));
    let runs = launch(ls);
    for (r, (p, c, recs)) in runs.iter().zip(&cfgs) {
        if r.end != End::Ok {
            return Err(format!("set-up: {} ended with {:?} for {:?}", p.name, r.end, c));
        }
        let rep = r.report();
        let want = c.expected_parts(p);
        let mut ds_ok: Option<String> = None;
        for pr in &rep.probes {
            if let Err(e) = &pr.got {
                if e.starts_with("panic") {
                    return Err(format!("reader crash: {} on {} of {:?}", e, pr.what, c));
                }
            }
            match (&pr.expect, &pr.got) {
                (Expect::Same, Err(e)) => return Err(format!("own header refused: {} for {:?}", e, c)),
                (Expect::Same, Ok(got)) => {
                    for (a, b) in got.parts.iter().zip(&want) {
                        if a != b {
                            return Err(format!("value changed: read back {} for {} ({})", a, b, p.name));
                        }
                    }
                    if got.parts.len() != want.len() {
                        return Err("value changed: parts missing".into());
                    }
                    if got.dataset != rep.dataset {
                        return Err(format!("data set changed: read back {} for {}", got.dataset, rep.dataset));
                    }
                    check_dataset(&got.dataset, c, p)?;
                    let rest = match got.rest.first() {
                        Some(l) if is_marker(l) => &got.rest[1..],
                        _ => &got.rest[..],
                    };
                    if rest != &recs[..] {
                        return Err(format!("data lines: {:?} remain after the header, {:?} were written", rest, recs));
                    }
                    ds_ok = Some(got.dataset.clone());
                    nontrivial();
                }
                (Expect::Refused, Ok(got)) => {
                    return Err(format!("damaged header accepted: {} of {:?} read as {}", pr.what, c, got.dataset));
                }
                (Expect::SameOrRefused, Ok(got)) => {
                    if Some(&got.dataset) != ds_ok.as_ref() {
                        return Err(format!("damaged header misread: {} as {}", pr.what, got.dataset));
                    }
                }
                _ => {}
            }
        }
        if rep.probes.is_empty() {
            return Err("set-up: no probe was made".into());
        }
    }
    Ok(())
}
/// The data set's Debug text must hold each of its fields with the right value.
fn check_dataset(dbg: &str, c: &Config, p: &Prog) -> Res {
    for f in p.ds.iter().chain(p.sim_ds) {
        let want = format!("{}: {}", f, c.get(f).debug());
        if !dbg.contains(&want) {
            return Err(format!("data set changed: {} lacks {}", dbg, want));
        }
    }
    Ok(())
}

// ---- C02 / C03 -----------------------------------------------------------------
fn run_analyses(plan: &Plan, n: usize, specs: &[AnSpec], concurrent: bool) -> Result<Vec<Run>, String> {
    let mut runs = vec![];
    let mut ls: Vec<Launch> = (0..n).map(|i| plan.analysis(&specs[i % specs.len()], vec![])).collect();
    if concurrent {
        runs = launch(ls);
    } else {
        while !ls.is_empty() {
            let l = ls.remove(0);
            runs.extend(launch(vec![l]));
        }
    }
    for r in &runs {
        if r.end != End::Ok {
            return Err(format!("analysis: ended with {:?}", r.end));
        }
    }
    Ok(runs)
}
fn own_dir(r: &Run) -> Result<String, String> {
    let d = dir_of(r.id);
    if d.len() != 1 {
        return Err(format!("directory: the analysis wrote to {:?}", d));
    }
    Ok(d[0].clone())
}

pub fn c02() -> Res {
    draw_benign(true);
    let p = pick_prog(|_| true);
    let plan = gen_plan(p, 4, 4, 12, Taste::Wild);
    // a directory may be analysed before its first data file arrives
    if chance(1, 4) {
        let r = launch(vec![plan.analysis(&plan.spec, vec![])]);
        if r[0].end != End::Ok {
            return Err(format!("analysis: of an empty directory ended with {:?}", r[0].end));
        }
        check_summary(&files(&plan.dir), &own_dir(&r[0])?, p, &plan.spec, &[])?;
    }
    let runs = plan.produce()?;
    rearrange(&plan.dir);
    add_foreign_of(true, &plan.dir, &files(&plan.dir));
    let groups = plan.groups(&runs);
    sample(|| format!("{} groups {:?}, {} files, spec {:?}", groups.len(), groups.iter().map(|x| x.recs.len()).collect::<Vec<_>>(), runs.len(), plan.spec));
    let before = all_files();
    let mut spec = plan.spec.clone();
    if p.an == An::TimeVecAnalysis && chance(1, 5) {
        spec.num_var = 0;
    }
    let n = 1 + g(3) as usize;
    let ar = run_analyses(&plan, n, &[spec.clone()], chance(1, 2))?;
    for r in &ar {
        check_summary(&files(&plan.dir), &own_dir(r)?, p, &spec, &groups)?;
    }
    untouched(&before, "analysis")?;
    if groups.iter().filter(|x| !x.recs.is_empty()).count() >= 1 && runs.len() >= 2 {
        nontrivial();
    }
    Ok(())
}

pub fn c03() -> Res {
    draw_benign(true);
    let p = pick_prog(|_| true);
    let many = if chance(1, 4) { 60 } else { 15 };
    let plan = gen_plan(p, 2, 2, many, Taste::Wild);
    let runs = plan.produce()?;
    rearrange(&plan.dir);
    let groups = plan.groups(&runs);
    sample(|| format!("{:?} {} samples", plan.spec, groups.iter().map(|x| x.recs.len()).sum::<usize>()));
    // the same data under other binnings too
    let mut specs = vec![plan.spec.clone()];
    for _ in 0..g(3) {
        let mut s = gen_spec(p.an, 1);
        s.num_var = plan.spec.num_var;
        if chance(1, 2) {
            s.min = plan.spec.min;
            s.max = plan.spec.max;
            let span = s.max - s.lo();
            if let Form::Size(b, l) = &mut s.form {
                let (_, l0) = plan.spec.sizes();
                *b = span / (3.0 + g(50) as f64 * 0.3);
                *l = l0;
            }
        }
        specs.push(s);
    }
    let n = specs.len();
    let ar = run_analyses(&plan, n, &specs, chance(1, 3))?;
    for (r, s) in ar.iter().zip(&specs) {
        let read: Vec<Vec<Vec<Rec>>> = groups.iter().map(|x| vec![x.recs.clone()]).collect();
        check_distributions(&files(&plan.dir), &own_dir(r)?, p, s, &groups, &read)?;
    }
    if groups.iter().any(|x| x.recs.iter().flatten().any(|v| plan.spec.in_range(v.0))) {
        nontrivial();
    }
    Ok(())
}

// ---- C04 -------------------------------------------------------------------------
/// A hard fault somewhere within the given call counts.
fn plan_fault(ops: &[u32; NCLASS]) -> Vec<Fault> {
    let mut v = vec![];
    for _ in 0..1 + (fchance(1, 4) as usize) {
        let live: Vec<usize> = (0..Class::Other as usize).filter(|c| ops[*c] > 0).collect();
        let (class, n) = if live.is_empty() || fchance(1, 6) {
            (None, ops.iter().take(9).sum::<u32>().max(1))
        } else {
            let c = live[f(live.len() as u64) as usize];
            let cl = [Class::OpenR, Class::OpenW, Class::Read, Class::Write, Class::Mkdir, Class::Stat, Class::Opendir, Class::Readdir][c];
            (Some(cl), ops[c])
        };
        // often near the end, where the results are written
        let nth = if fchance(1, 3) { n - 1 - f(n.min(4) as u64) as u32 } else { f(n as u64) as u32 };
        v.push(Fault { class, nth, sticky: fchance(1, 2), kind: FaultKind::Errno(hard_errno()) });
    }
    v
}
fn ops_of(id: usize) -> [u32; NCLASS] {
    with(|w| w.procs[id].ops)
}

pub fn c04() -> Res {
    draw_benign(true);
    let p = pick_prog(|_| true);
    let many = if chance(1, 3) { 40 } else { 8 };
    // now and then so many configurations that the summary takes several writes
    let crowd = chance(1, 40);
    let plan = if crowd { gen_plan_of(4, p, 3, 1, 2, Taste::Wild) } else { gen_plan(p, 3, 2, many, Taste::Wild) };
    let runs = plan.produce()?;
    let own = files(&plan.dir);
    if chance(1, 2) {
        add_foreign(&plan.dir, &own);
    }
    let groups = plan.groups(&runs);
    let setup = !crowd && chance(1, 3);
    if setup {
        // a further simulation meets the fault
        let from = plan.units[0].cfg.clone();
        let mut c = from;
        set_index(&mut c, 90_001);
        if chance(1, 3) {
            c.set("output_dir", crate::meta::V::T(format!("{}/deeper/{}", plan.dir, g(3))));
        }
        // now and then nothing more is written
        let recs: Vec<String> = if chance(1, 4) { vec![] } else { (0..1 + g(many)).map(|_| gen_record(&plan.spec)).collect() };
        let mut faults = vec![];
        let cap = fchance(1, 4);
        if cap {
            let size = 800 + recs.iter().map(|r| r.len() + 1).sum::<usize>();
            let room = f(size as u64);
            with(|w| w.vfs.capacity = Some(room));
        } else {
            faults = plan_fault(&ops_of(runs[0].id));
        }
        let work = if recs.is_empty() { Work::None } else { Work::Lines(recs.clone(), pick(&[Flush::Each, Flush::End, Flush::Every(2)])) };
        let job = Job::new(vec![], work);
        let before = all_files();
        sample(|| format!("set-up of {} with {:?}", p.name, faults));
        let r = launch(vec![Launch { before: vec![], delay: 0, prog: p, args: c.args(p, g(u64::MAX)), job, faults }]);
        let r = &r[0];
        with(|w| w.vfs.capacity = None);
        if !r.fired.is_empty() {
            nontrivial();
        }
        let rep = r.report();
        if rep.set_up {
            let head = String::from_utf8_lossy(&rep.at_setup).into_owned();
            if !(head.ends_with('\n') && head.lines().last().map_or(false, is_marker)) {
                return Err(format!("silent loss: set-up succeeded with {} bytes of the header on disk after faults {:?}", head.len(), r.fired));
            }
        }
        match &r.end {
            End::Io(_) => {}
            End::Ok => {
                let path = rep.own.clone().ok_or("set-up: success without a result file")?;
                // read it back with the real reader, on a healthy machine
                let mut job = Job::new(vec![], Work::None);
                job.probes = vec![Probe::Path(path.clone())];
                let mut c2 = c.clone();
                set_index(&mut c2, 90_002);
                let rr = launch(vec![Launch { before: vec![], delay: 0, prog: p, args: c2.args(p, 0), job, faults: vec![] }]);
                let pr = rr[0].report();
                match pr.probes.first().map(|x| x.got.clone()) {
                    Some(Ok(got)) => {
                        let rest = match got.rest.first() {
                            Some(l) if is_marker(l) => &got.rest[1..],
                            _ => &got.rest[..],
                        };
                        if got.parts != c.expected_parts(p) {
                            return Err(format!("silent loss: header of {} is wrong after faults {:?}", path, r.fired));
                        }
                        if rest != &recs[..] {
                            return Err(format!("silent loss: {} of {} records in {} after faults {:?}", rest.len(), recs.len(), path, r.fired));
                        }
                    }
                    e => return Err(format!("silent loss: {} unreadable ({:?}) after faults {:?}", path, e.map(|x| x.err()), r.fired)),
                }
            }
            e => return Err(format!("wrong error: set-up ended with {:?} after faults {:?}", e, r.fired)),
        }
        return untouched(&before, "failed set-up");
    }
    // a healthy analysis tells how many calls there are
    let healthy = run_analyses(&plan, 1, &[plan.spec.clone()], false)?;
    let ops = ops_of(healthy[0].id);
    let mut faults = vec![];
    let before = all_files();
    if fchance(1, 4) {
        let size: usize = files(&own_dir(&healthy[0])?).values().map(|v| v.len()).sum();
        let room = f(size as u64 + 1);
        with(|w| w.vfs.capacity = Some(room));
    } else if crowd {
        count("fault in a long summary");
        faults = vec![Fault { class: None, nth: f(4) as u32, sticky: fchance(1, 3), kind: FaultKind::WriteTo("/brief_", hard_errno()) }];
    } else {
        faults = plan_fault(&ops);
    }
    sample(|| format!("analysis of {} with {:?}, calls {:?}", p.name, faults, ops));
    let mut ls = vec![plan.analysis(&plan.spec, faults)];
    if chance(1, 5) {
        ls.push(plan.analysis(&plan.spec, vec![]));
    }
    let rs = launch(ls);
    with(|w| w.vfs.capacity = None);
    for r in &rs {
        if !r.fired.is_empty() {
            nontrivial();
        }
        match &r.end {
            End::Io(_) if !r.fired.is_empty() => {}
            End::Io(e) => return Err(format!("wrong error: {} without a fault", e)),
            End::Ok => {
                let d = own_dir(r)?;
                let fs = files(&plan.dir);
                let ctx = |e: String| format!("silent loss: success in spite of {:?}, but {}", r.fired, e);
                check_summary(&fs, &d, p, &plan.spec, &groups).map_err(ctx)?;
                let read: Vec<Vec<Vec<Rec>>> = groups.iter().map(|x| vec![x.recs.clone()]).collect();
                check_distributions(&fs, &d, p, &plan.spec, &groups, &read).map_err(ctx)?;
            }
            e => return Err(format!("wrong error: analysis ended with {:?} after {:?}", e, r.fired)),
        }
    }
    untouched(&before, "failed analysis")?;
    // and afterwards everything works again
    if chance(1, 4) {
        let r = run_analyses(&plan, 1, &[plan.spec.clone()], false)?;
        check_summary(&files(&plan.dir), &own_dir(&r[0])?, p, &plan.spec, &groups).map_err(|e| format!("lasting damage: {}", e))?;
    }
    Ok(())
}

// ---- C05 -----------------------------------------------------------------------
fn day_name(day: i64) -> String {
    // civil from days
    let z = day + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    format!("analysis_{:04}{:02}{:02}", y, m, d)
}

pub fn c05() -> Res {
    draw_benign(true);
    let p = pick_prog(|_| true);
    let plan = gen_plan(p, 2, 2, 5, Taste::Wild);
    let runs = plan.produce()?;
    let groups = plan.groups(&runs);
    let read: Vec<Vec<Vec<Rec>>> = groups.iter().map(|x| vec![x.recs.clone()]).collect();
    // leftovers: results of earlier days or of today, a stray file of that name
    if chance(1, 2) {
        let today = with(|w| w.now.div_euclid(86_400_000_000_000));
        for _ in 0..g(4) {
            let day = today + gr(-1, 1);
            let name = match g(3) {
                0 => day_name(day),
                k => format!("{}_{}", day_name(day), 2 + k - 1 + g(2)),
            };
            let path = format!("{}/{}", abs(&plan.dir), name);
            match g(3) {
                0 => with(|w| w.vfs.mkdirs(&path)),
                1 => with(|w| w.vfs.put(&format!("{}/brief_result.dat", path), b"old results\n")),
                _ => {
                    if with(|w| w.vfs.get(&path).is_none()) {
                        with(|w| w.vfs.put(&path, b"a file in the way\n"))
                    }
                }
            }
        }
    }
    // a busy day: the first so many names are taken
    if chance(1, 10) {
        let today = with(|w| w.now.div_euclid(86_400_000_000_000));
        let busy = pick(&[9, 10, 11, 20, 31, 99, 100, 101, 128, 260]) + g(2);
        for day in [today, today + 1] {
            for k in 1..busy {
                let name = if k == 1 { day_name(day) } else { format!("{}_{}", day_name(day), k) };
                with(|w| w.vfs.mkdirs(&format!("{}/{}", abs(&plan.dir), name)));
            }
        }
        count("names of the day taken");
    }
    let rounds = 1 + g(2);
    let mut seen: Vec<String> = analysis_dirs(&plan.dir);
    let mut total = 0;
    for _ in 0..rounds {
        let n = 1 + g(4) as usize;
        let before = all_files();
        let mut ls = vec![];
        for _ in 0..n {
            let faults = if fchance(1, 6) {
                vec![Fault {
                    class: Some([Class::Mkdir, Class::OpenW, Class::Write, Class::Stat, Class::Readdir][f(5) as usize]),
                    nth: f(6) as u32,
                    sticky: fchance(1, 2),
                    kind: if fchance(1, 2) { FaultKind::Errno(hard_errno()) } else { FaultKind::CrashBefore },
                }]
            } else {
                vec![]
            };
            ls.push(plan.analysis(&plan.spec, faults));
        }
        let rs = launch(ls);
        let now_dirs = analysis_dirs(&plan.dir);
        let mut taken: Vec<String> = vec![];
        for r in &rs {
            match &r.end {
                End::Ok => {}
                End::Crashed => continue,
                End::Io(_) if !r.fired.is_empty() => continue,
                e => return Err(format!("analysis: ended with {:?}, faults {:?}", e, r.fired)),
            }
            total += 1;
            let d = own_dir(r)?;
            if seen.contains(&d) {
                return Err(format!("not new: {} existed before", d));
            }
            if taken.contains(&d) {
                return Err(format!("shared: {} used by two successful analyses", d));
            }
            // nobody else may have written into it
            let strangers = with(|w| {
                w.vfs
                    .nodes
                    .iter()
                    .filter(|(k, _)| k.starts_with(&format!("{}/", d)))
                    .filter_map(|(_, n)| if let vfs::Node::File(i) = n { Some(w.vfs.inodes[*i].writers & !(1u128 << (r.id & 127))) } else { None })
                    .any(|m| m != 0)
            });
            if strangers {
                return Err(format!("shared: another analysis wrote into {}", d));
            }
            let parent = vfs::parent(&d).to_string();
            if parent != abs(&plan.dir) {
                return Err(format!("place: {} is not directly inside {}", d, plan.dir));
            }
            let name = vfs::base(&d).to_string();
            let days: Vec<i64> = with(|w| w.procs[r.id].days.iter().cloned().collect());
            let stem = match days.iter().map(|x| day_name(*x)).find(|s| name == *s || name.starts_with(&format!("{}_", s))) {
                Some(s) => s,
                None => return Err(format!("name: {} while the clock showed {:?}", name, days.iter().map(|x| day_name(*x)).collect::<Vec<_>>())),
            };
            if name != stem {
                let k: u64 = name[stem.len() + 1..].parse().map_err(|_| format!("name: {}", name))?;
                if k < 2 || name != format!("{}_{}", stem, k) {
                    return Err(format!("name: {}", name));
                }
                for j in 1..k {
                    let q = format!("{}/{}", abs(&plan.dir), if j == 1 { stem.clone() } else { format!("{}_{}", stem, j) });
                    if with(|w| w.vfs.get(&q).is_none()) {
                        return Err(format!("name: {} chosen although {} is free", name, q));
                    }
                }
            }
            let fs = files(&plan.dir);
            let ctx = |e: String| format!("incomplete: {} of {}", e, d);
            check_summary(&fs, &d, p, &plan.spec, &groups).map_err(ctx)?;
            check_distributions(&fs, &d, p, &plan.spec, &groups, &read).map_err(ctx)?;
            taken.push(d);
        }
        untouched(&before, "analysis")?;
        seen = now_dirs;
        if total >= 2 {
            nontrivial();
        }
    }
    sample(|| format!("{} successful analyses into {:?}", total, seen.iter().map(|s| vfs::base(s).to_string()).collect::<Vec<_>>()));
    Ok(())
}

// ---- C06 ------------------------------------------------------------------------
fn crash_fault(max: u64) -> Vec<Fault> {
    let kind = match f(4) {
        0 => FaultKind::CrashBefore,
        1 => FaultKind::CrashAfter,
        2 => FaultKind::CrashTorn([0, 500, 999, 100, 900][f(5) as usize]),
        _ => FaultKind::CrashTorn(f(1000) as u32),
    };
    let class = match kind {
        FaultKind::CrashTorn(_) => Some(Class::Write),
        _ => [None, Some(Class::Write), Some(Class::OpenW), Some(Class::Mkdir)][f(4) as usize],
    };
    let nth = match class {
        Some(Class::OpenW) => 0,
        Some(Class::Mkdir) => f(3) as u32,
        _ => f(max) as u32,
    };
    vec![Fault { class, nth, sticky: false, kind }]
}

pub fn c06() -> Res {
    draw_benign(true);
    let p = pick_prog(|_| true);
    let plan = gen_plan(p, 3, 3, 8, Taste::Wild);
    let mut crashes = 0;
    let mut ls = plan.launches(&mut |i| {
        if fchance(2, 3) {
            let n = plan.units[i].recs.len() as u64;
            match f(8) {
                // an I/O error ends the program as well
                0 => vec![Fault { class: Some(Class::Write), nth: f(n + 2) as u32, sticky: fchance(1, 2), kind: FaultKind::Errno(libc::ENOSPC) }],
                _ => crash_fault(n + 6),
            }
        } else {
            vec![]
        }
    });
    let mut runs: Vec<Run> = vec![];
    while !ls.is_empty() {
        let n = (1 + g(4) as usize).min(ls.len());
        let rest = ls.split_off(n);
        runs.extend(launch(ls));
        ls = rest;
    }
    // crashed programs may be started again just as they were
    let mut again: Vec<Option<Run>> = plan.units.iter().map(|_| None).collect();
    if chance(1, 2) {
        let mut ls = vec![];
        let mut whose = vec![];
        for (i, l) in plan.launches(&mut |_| vec![]).into_iter().enumerate() {
            if runs[i].end == End::Crashed && chance(1, 2) {
                let faults = if fchance(1, 3) { crash_fault(plan.units[i].recs.len() as u64 + 6) } else { vec![] };
                ls.push(Launch { faults, ..l });
                whose.push(i);
            }
        }
        for (r, i) in launch(ls).into_iter().zip(whose) {
            count("crashed program started again");
            again[i] = Some(r);
        }
    }
    let fs = files(&plan.dir);
    let mut groups: Vec<Group> = vec![];
    let mut torn_count = 0;
    for (i, (u, r)) in plan.units.iter().zip(&runs).enumerate() {
        let mut tries = vec![r];
        tries.extend(&again[i]);
        for r in &tries {
            match &r.end {
                End::Crashed => crashes += 1,
                End::Ok => {}
                End::Io(_) if !r.fired.is_empty() => {}
                e => return Err(format!("set-up: {} ended with {:?} for {:?}", p.name, e, u.cfg)),
            }
        }
        let reps: Vec<Report> = tries.iter().map(|r| r.report()).collect();
        let rep = reps.last().unwrap();
        let path = reps.iter().find_map(|r| r.own.clone());
        let key = u.cfg.key(p);
        let mut recs: Vec<Rec> = vec![];
        let mut torn: Option<Vec<Vec<Rec>>> = None;
        if let Some(path) = &path {
            let data = fs.get(path).cloned().ok_or(format!("durability: {} is gone", path))?;
            let t = String::from_utf8_lossy(&data).into_owned();
            let at = t.find("DATA STARTS").and_then(|i| t[i..].find('\n').map(|j| i + j + 1));
            let tail = at.map_or("", |i| &t[i..]);
            let holds = |rep: &Report| {
                let all: String = rep.started.iter().map(|s| format!("{}\n", s)).collect();
                let sure: String = rep.started[..rep.acked].iter().map(|s| format!("{}\n", s)).collect();
                tail.starts_with(&sure) && all.starts_with(tail)
            };
            // a second start replaces the file; cut short before that is done, the old one may remain
            let of = match reps.len() {
                2 if rep.own.is_none() && !tail.is_empty() => &reps[0],
                _ => rep,
            };
            if !holds(of) {
                return Err(format!("durability: {} holds {:?}; {} acknowledged of {:?}", path, tail, of.acked, of.started));
            }
            let whole = tail.matches('\n').count();
            for l in &of.started[..whole] {
                recs.push(parse_rec(p.an, l).expect("own record"));
            }
            let part = &tail[tail.rfind('\n').map_or(0, |i| i + 1)..];
            if !part.is_empty() {
                torn_count += 1;
                torn = Some(torn_alternatives(p.an, part, plan.spec.num_var).into_iter().map(|r| r.into_iter().collect()).collect());
            }
        }
        let rep = reps.iter().find(|r| !r.dist_name.is_empty()).unwrap_or(rep);
        let name = rep.dist_name.clone();
        match groups.iter_mut().find(|x| x.key == key) {
            Some(x) => {
                x.recs.extend(recs);
                x.torn.extend(torn);
                if x.dist_name.is_empty() {
                    x.dist_name = name;
                }
            }
            None => groups.push(Group { key, dist_name: name, recs, torn: torn.into_iter().collect() }),
        }
    }
    if crashes > 0 {
        nontrivial();
    }
    if torn_count > 0 {
        count("record torn by a crash");
    }
    sample(|| format!("{} of {} programs crashed, {} records torn, {} complete", crashes, runs.len(), torn_count, groups.iter().map(|x| x.recs.len()).sum::<usize>()));
    if chance(1, 3) {
        add_foreign(&plan.dir, &fs);
    }
    let before = all_files();
    // an analysis may crash as well
    if fchance(1, 3) {
        let mut a = vec![plan.analysis(&plan.spec, crash_fault(40))];
        if chance(1, 2) {
            a.push(plan.analysis(&plan.spec, crash_fault(60)));
        }
        for r in launch(a) {
            if !matches!(r.end, End::Crashed | End::Ok) {
                return Err(format!("analysis: ended with {:?}", r.end));
            }
        }
    }
    let n = 1 + g(2) as usize;
    let ar = run_analyses(&plan, n, &[plan.spec.clone()], chance(1, 2))?;
    for r in &ar {
        let d = own_dir(r)?;
        let fs = files(&plan.dir);
        let read = check_summary(&fs, &d, p, &plan.spec, &groups)?;
        check_distributions(&fs, &d, p, &plan.spec, &groups, &read)?;
    }
    untouched(&before, "analysis")
}

// ---- C20 -------------------------------------------------------------------------
/// What an analysis running from `from` to `to` may have read of a program's records.
fn readings(rep: &Report, kind: An, num_var: usize, from: u64, to: u64, torn: bool) -> Vec<Vec<Rec>> {
    let sure = rep.acked_at.iter().filter(|(t, _)| *t < from).map(|(_, n)| *n).max().unwrap_or(0);
    let most = rep.started_at.iter().filter(|t| **t < to).count();
    let mut all = vec![];
    for k in sure..=most {
        let whole: Vec<Rec> = rep.started[..k].iter().map(|l| parse_rec(kind, l).expect("own record")).collect();
        if torn && k < most {
            let l = &rep.started[k];
            let mut seen: Vec<Rec> = vec![];
            for i in 1..l.len() {
                for r in torn_alternatives(kind, &l[..i], num_var).into_iter().flatten() {
                    if !seen.contains(&r) {
                        seen.push(r);
                    }
                }
            }
            for r in seen {
                let mut v = whole.clone();
                v.push(r);
                all.push(v);
            }
        }
        all.push(whole);
    }
    all
}

pub fn c20() -> Res {
    draw_benign(true);
    let p = pick_prog(|_| true);
    // every write carries whole lines; the last one of a crashing program may be cut short
    with(|w| w.benign.short_write = 0);
    let torn = fchance(1, 3);
    let mut plan = if torn { gen_plan_of(0, p, 3, 1, 5, Taste::Wild) } else { gen_plan_of(0, p, 2, 3, 4, Taste::Wild) };
    for u in &mut plan.units {
        // what the program's buffer holds goes out in one write
        let mut len = 0;
        u.recs.retain(|r| {
            len += r.len() + 1;
            len < 8000
        });
    }
    let mut writers: Vec<Launch> = plan.launches(&mut |i| if torn && fchance(1, 2) { crash_fault(plan.units[i].recs.len() as u64 + 6) } else { vec![] });
    // some programs are through before, the others run beside the analyses
    let early = if chance(1, 3) { g(writers.len() as u64 + 1) as usize } else { 0 };
    let rest = writers.split_off(early);
    let mut runs = if early > 0 { launch(writers) } else { vec![] };
    let n_an = 1 + g(3) as usize;
    let mut ls: Vec<Launch> = rest;
    let n_rest = ls.len();
    for _ in 0..n_an {
        let mut l = plan.analysis(&plan.spec, vec![]);
        l.delay = g(40);
        ls.push(l);
    }
    if chance(1, 2) {
        for l in &mut ls[..n_rest] {
            l.delay = g(30);
        }
    }
    let fs = files(&plan.dir);
    if chance(1, 4) {
        add_foreign(&plan.dir, &fs);
    }
    let mut all = launch(ls);
    let ans = all.split_off(n_rest);
    runs.extend(all);
    for (r, u) in runs.iter().zip(&plan.units) {
        if r.end != End::Ok && r.end != End::Crashed {
            return Err(format!("program: {} ended with {:?} beside an analysis, for {:?}", p.name, r.end, u.cfg));
        }
        if let (Some(own), true) = (&r.report().own, r.end == End::Ok) {
            let t = with(|w| w.vfs.file(own).map(|d| String::from_utf8_lossy(d).into_owned())).ok_or(format!("program: {} is gone", own))?;
            let want: String = u.recs.iter().map(|l| format!("{}\n", l)).collect();
            if !t.ends_with(&format!("\n{}", want)) {
                return Err(format!("program: {} does not end with the records {:?}", own, u.recs));
            }
        }
    }
    let mut partial = false;
    for a in &ans {
        let span = a.report();
        if a.end != End::Ok {
            return Err(format!("analysis: ended with {:?} beside running programs", a.end));
        }
        let mut groups: Vec<Group> = vec![];
        for (u, r) in plan.units.iter().zip(&runs) {
            let key = u.cfg.key(p);
            let rep = r.report();
            let alts = readings(&rep, p.an, plan.spec.num_var, span.begun, span.ended, r.end == End::Crashed);
            partial |= alts.len() > 1;
            let x = match groups.iter_mut().position(|x| x.key == key) {
                Some(i) => &mut groups[i],
                None => {
                    groups.push(Group { key, dist_name: String::new(), recs: vec![], torn: vec![] });
                    groups.last_mut().unwrap()
                }
            };
            x.torn.push(alts);
            if x.dist_name.is_empty() {
                x.dist_name = rep.dist_name.clone();
            }
        }
        let d = own_dir(a)?;
        let fs = files(&plan.dir);
        let read = check_summary(&fs, &d, p, &plan.spec, &groups)?;
        check_distributions(&fs, &d, p, &plan.spec, &groups, &read)?;
    }
    if partial {
        nontrivial();
        count("analysis beside a program that writes");
    }
    sample(|| format!("{} programs, {} of them before, {} analyses, spec {:?}", runs.len(), early, n_an, plan.spec));
    Ok(())
}

// ---- C07 -------------------------------------------------------------------------
fn data_of(path: &str) -> Result<String, String> {
    let d = with(|w| w.vfs.file(path).map(|d| d.to_vec())).ok_or(format!("output: {} is missing", path))?;
    String::from_utf8(d).map_err(|_| "output: not text".to_string())
}

/// Other simulations the process did before: similar ones, in other directories.
fn earlier(p: &'static Prog, c: &Config) -> Vec<(&'static Prog, Vec<String>, Job)> {
    let mut v = vec![];
    for k in 0..pick(&[0u64, 0, 1, 1, 2]) {
        let q = if chance(1, 3) { p } else { pick_prog(|_| true) };
        let mut d = gen_config(q, Taste::Mild);
        for n in ["dt", "dt_min", "dt_max", "length", "tmax", "sys_size", "sys_radius", "sys_length", "target_size", "mtype", "period", "gamma", "strength", "ptl_size", "ptl_radius", "alpha", "seed"] {
            if d.has(n) && c.has(n) && chance(2, 3) {
                d.set(n, c.get(n).clone());
            }
        }
        fix(&mut d);
        d.set("output_dir", V::T(format!("earlier{}", k)));
        set_index(&mut d, 70 + g(1000) as usize);
        v.push((q, d.args(q, g(u64::MAX)), Job::new(vec![], Work::Md(MdJob { max_steps: 1 + g(6) as usize, ..Default::default() }))));
    }
    v
}

/// A copied generator, used alternately with its original on one thread through every
/// helper that draws, delivers the same numbers.
fn copies_agree() -> Res {
    use super::dynamics::{gen_rng, gen_sys, same_state};
    use moledyn::agent_mod::cont_passive_indep::ContPassiveIndepAgent;
    #[allow(unused_imports)]
    use moledyn::prelude::{AgentCore, MoveType, Numerics, Passive, Pcg64, Position, SystemCore};
    use moledyn::random_mod::*;
    let mut a = gen_rng();
    let mut b = a.clone();
    let sys = gen_sys(3);
    let dim = sys.dim();
    let agent = ContPassiveIndepAgent::new(MoveType::Brownian(1.0), Position::new(vec![0.0; dim]));
    for k in 0..1 + g(8) {
        let (what, n) = (g(9), g(4) as usize);
        let draw = |r: &mut Pcg64| -> Result<Vec<f64>, String> {
            let e = |e: Error| format!("copy: helper {} failed: {:?}", what, e);
            let mut v = Position::new(vec![0.0; if what == 7 || what == 8 { dim } else { n }]);
            match what {
                0 => return Ok(vec![get_uniform(r)]),
                1 => return Ok(vec![get_gaussian(r)]),
                2 => return Ok(get_uniform_vec(r, n).coordinate),
                3 => return Ok(get_gaussian_vec(r, n).coordinate),
                4 => get_uniform_to_vec(r, &mut v),
                5 => get_gaussian_to_vec(r, &mut v),
                6 => get_gaussian_to_vec_nonstandard(r, &mut v, 0.5, 2.0),
                7 => sys.core().random_pos_to_vec(r, &mut v).map_err(e)?,
                _ => {
                    v = sys.core().random_pos(r).map_err(e)?;
                    v.mut_add(&agent.random_move(r, 0.5).map_err(e)?);
                }
            }
            Ok(v.coordinate)
        };
        let (x, y) = (draw(&mut a)?, draw(&mut b)?);
        if x.iter().map(|v| v.to_bits()).ne(y.iter().map(|v| v.to_bits())) {
            return Err(format!("copy: helper {} delivers {:?} to the original and {:?} to its copy after {} draws", what, x, y, k));
        }
    }
    if !same_state(&a, &b) {
        return Err("copy: original and copy ended apart".to_string());
    }
    Ok(())
}

pub fn c07() -> Res {
    draw_benign(false);
    let n = 1 + g(3) as usize;
    let mut jobs: Vec<(&'static Prog, Config, MdJob)> = vec![];
    for i in 0..n {
        let p = if i > 0 && chance(1, 2) { jobs[0].0 } else { pick_prog(|_| true) };
        let mut c = gen_config(p, Taste::Mild);
        if i > 0 && chance(1, 3) && jobs[0].0.name == p.name {
            c = jobs[0].1.clone();
        }
        set_index(&mut c, 10 + i);
        c.set("output_dir", V::T(format!("run{}", i)));
        let ens = match c.get("num_ensemble") {
            V::U(x) => *x as u64,
            _ => 1,
        };
        let mut m = MdJob { max_steps: 8 + g(30) as usize, by_value: chance(1, 3), ..Default::default() };
        if chance(2, 3) {
            m.snapshot = Some((g(ens.max(1)), g(20) as usize));
            m.copy_when = g(3);
        }
        jobs.push((p, c, m));
    }
    let styles: Vec<u64> = jobs.iter().map(|_| g(u64::MAX)).collect();
    let mk = |i: usize, snap: bool| {
        let (p, c, m) = &jobs[i];
        let mut m = m.clone();
        if !snap {
            m.snapshot = None;
        }
        let before = if snap { earlier(p, c) } else { vec![] };
        Launch { before, delay: 0, prog: p, args: c.args(p, styles[i]), job: Job::new(vec![], Work::Md(m)), faults: vec![] }
    };
    sample(|| format!("{} runs: {:?}", n, jobs.iter().map(|j| (j.0.name, &j.1, &j.2)).next()));
    // now and then one is compared with a run in a process of its own, while this process
    // has seen other simulations
    let fresh = if chance(1, 25) { Some(g(n as u64) as usize) } else { None };
    let others: Vec<_> = match fresh {
        Some(i) => earlier(jobs[i].0, &jobs[i].1),
        None => vec![],
    };
    let tape = with(|w| w.tape.data.clone());
    let solo = |i: usize| -> Result<(Run, String), String> {
        let r = launch(vec![mk(i, false)]).remove(0);
        let path = r.report().own.ok_or("run: no result file")?;
        let t = data_of(&path)?;
        Ok((r, t))
    };
    if crate::runner::is_reference() {
        if let Some(i) = fresh {
            let (r, t) = solo(i)?;
            crate::runner::put_reference(format!("{:?}\n{}", r.end, t));
        }
        return Ok(());
    }
    for (p, args, job) in others {
        launch(vec![Launch { before: vec![], delay: 0, prog: p, args, job, faults: vec![] }]);
    }
    // each alone on a quiet machine
    let mut alone: Vec<(String, End)> = vec![];
    for i in 0..n {
        let (r, t) = solo(i)?;
        let rep = r.report();
        match &r.end {
            End::Ok => {}
            // the step rule of the boundary, or an agent that cannot be renewed
            End::Other(_) => {}
            e => return Err(format!("run: {} ended with {:?}", jobs[i].0.name, e)),
        }
        let lines: Vec<String> = t.lines().skip_while(|l| !is_marker(l)).skip(1).map(|s| s.to_string()).collect();
        if lines != rep.started {
            return Err(format!("output: {:?} in the file, {:?} written", lines, rep.started));
        }
        if lines.len() > 1 || (lines.len() == 1 && r.end == End::Ok) {
            nontrivial();
        }
        if fresh == Some(i) {
            count("compared with a run in a fresh process");
            let want = crate::runner::fresh_reference("C07", &tape)?;
            let got = format!("{:?}\n{}", r.end, t);
            if want != got {
                return Err(format!("interference: {} wrote {}\nafter other simulations and {}\nin a fresh process", jobs[i].0.name, got, want));
            }
        }
        alone.push((t, r.end.clone()));
    }
    // remove the outputs and do it all at once on a nasty machine
    for i in 0..n {
        let d = abs(&format!("run{}", i));
        with(|w| w.vfs.nodes.retain(|k, _| !k.starts_with(&d)));
    }
    draw_benign(true);
    let order: Vec<usize> = {
        let mut v: Vec<usize> = (0..n).collect();
        shuffle(&mut v);
        v
    };
    let rs = launch(order.iter().map(|i| mk(*i, true)).collect());
    for (r, i) in rs.iter().zip(&order) {
        let rep = r.report();
        let path = rep.own.clone().ok_or("run: no result file")?;
        let t = data_of(&path)?;
        if r.end != alone[*i].1 {
            return Err(format!("interference: {} ended with {:?} among others and {:?} alone", jobs[*i].0.name, r.end, alone[*i].1));
        }
        if t != alone[*i].0 {
            return Err(format!("interference: {} wrote\n{}\namong others and\n{}\nalone", jobs[*i].0.name, t, alone[*i].0));
        }
        if let Some((copy, orig)) = &rep.resumed {
            count("mid-run copy continued");
            if copy != orig {
                return Err(format!("copy: continued as {:?}, the original as {:?} ({})", copy, orig, jobs[*i].0.name));
            }
        }
    }
    // streams of different seeds
    let s: u128 = match g(4) {
        0 => pick(&[0, 1, u32::MAX as u128, u64::MAX as u128, 1 << 64, 1 << 127, u128::MAX]),
        1 => g(1 << 20) as u128,
        _ => (g(u64::MAX) as u128) << 64 | g(u64::MAX) as u128,
    };
    let bit = g(128);
    let d = s ^ (1u128 << bit);
    let draw = |seed: u128| -> Vec<u64> {
        use rand::RngCore;
        let mut r = moledyn::random_mod::rng_seed(seed);
        (0..8).map(|_| r.next_u64()).collect()
    };
    if draw(s) != draw(s) {
        return Err(format!("stream: seed {} gives different streams", s));
    }
    // seeds that are alike in one way or another
    let m: u128 = pick(&[
        (1 << 31) - 1,
        u32::MAX as u128,
        1_000_000_007,
        (1 << 61) - 1,
        u64::MAX as u128,
        u64::MAX as u128 - 58,
        1_000_000,
        1_000_000_000_000,
        10u128.pow(18),
        997,
        1 << 53,
    ]);
    let alike = [d, s.rotate_left(64), s.swap_bytes(), s.reverse_bits(), !s, s.wrapping_neg(), s.wrapping_add(m), s.wrapping_mul(m + 2), s << 64, s >> 64, s & u64::MAX as u128];
    let first = draw(s);
    for d in alike {
        if d != s && first == draw(d) {
            return Err(format!("stream: seeds {} and {} give the same stream", s, d));
        }
    }
    copies_agree()
}

// ---- C14 ---------------------------------------------------------------------------
fn check_objects(rep: &Report, c: &Config, p: &Prog) -> Res {
    for (k, part) in p.parts.iter().take(4).enumerate() {
        let o = &rep.objs[k];
        for f in fields(*part) {
            let v = c.get(f);
            let (name, val) = match (*f, v) {
                ("num_agent", V::U(n)) => {
                    let have = o.matches(" { agent_type: ").count();
                    if have != *n {
                        return Err(format!("value: {} agents for num_agent {}", have, n));
                    }
                    continue;
                }
                // below the clocks' thresholds for "unlimited": no opinion
                ("tmax", V::F(x)) if *x > 0.0 && *x < 1e-10 => continue,
                ("tmax", V::F(x)) => ("tmax", format!("{:?}", if *x < 1e-10 { f64::MAX } else { *x })),
                ("dt_min", V::F(x)) => ("dt", format!("{:?}", x)),
                ("dt_max", _) | ("length", _) => {
                    // part of the clock's type
                    if !o.contains(&format!("{}", v.debug())) {
                        return Err(format!("value: {} of {:?} is not in {}", f, v, o));
                    }
                    continue;
                }
                (n, v) => (n, v.debug()),
            };
            if c.u_or_zero("num_agent") == 0 && k == 2 {
                continue;
            }
            let alt = ["radius", "length", "size", "pos"].iter().find(|s| name.ends_with(*s)).copied();
            let ok = o.contains(&format!("{}: {}", name, val)) || alt.is_some_and(|a| o.contains(&format!("{}: {}", a, val)));
            if !ok {
                return Err(format!("value: {}: {} is not in {}", name, val, o));
            }
        }
    }
    Ok(())
}

pub fn c14() -> Res {
    draw_benign(true);
    let p = pick_prog(|_| true);
    let mut cfgs = vec![gen_config(p, Taste::Wild)];
    for _ in 0..g(4) {
        let mut c = cfgs[g(cfgs.len() as u64) as usize].clone();
        if chance(1, 2) {
            c = vary(&c, p);
        } else {
            let k = g(10_000) as usize;
            set_index(&mut c, k);
        }
        if chance(1, 6) {
            c.set("output_dir", V::T(gen_dir()));
        }
        if !cfgs.iter().any(|d| d.file_key(p) == c.file_key(p)) {
            cfgs.push(c);
        }
    }
    let spec = gen_spec(p.an, 3);
    let recs: Vec<Vec<String>> = cfgs.iter().map(|_| (0..g(4)).map(|_| gen_record(&spec)).collect()).collect();
    sample(|| format!("{} {:?}", p.name, cfgs));
    let total: usize = p.parts.iter().map(|x| fields(*x).len()).sum();
    // started normally, one after another or at once
    let mk = |i: usize| Launch {
                before: vec![],
        delay: 0,
        prog: p,
        args: cfgs[i].args(p, g(u64::MAX)),
        job: Job::new(vec![], Work::Lines(recs[i].clone(), Flush::Each)),
        faults: vec![],
    };
    let concurrent = chance(1, 2);
    let mut runs = vec![];
    let mut owns: Vec<String> = vec![];
    let dirs0 = all_dirs();
    if concurrent {
        runs = launch((0..cfgs.len()).map(mk).collect());
    }
    for i in 0..cfgs.len() {
        if !concurrent {
            let before = all_files();
            runs.extend(launch(vec![mk(i)]));
            untouched(&before, &format!("run {} of {:?}", p.name, cfgs[i]))?;
            let new: Vec<String> = all_files().keys().filter(|k| !before.contains_key(*k)).cloned().collect();
            if new.len() != 1 {
                return Err(format!("files: the run created {:?}", new));
            }
        }
        let r = &runs[i];
        if r.end != End::Ok {
            return Err(format!("set-up: ended with {:?} for {:?}", r.end, cfgs[i]));
        }
        let rep = r.report();
        if rep.parts != cfgs[i].expected_parts(p) {
            return Err(format!("value: runs with {:?} instead of {:?}", rep.parts, cfgs[i].expected_parts(p)));
        }
        for (n, v) in &rep.locals {
            if *v != cfgs[i].get(n).debug() {
                return Err(format!("value: {} is {} instead of {}", n, v, cfgs[i].get(n).debug()));
            }
        }
        check_objects(&rep, &cfgs[i], p)?;
        check_dataset(&rep.dataset, &cfgs[i], p)?;
        let own = rep.own.clone().ok_or("files: no result file")?;
        if vfs::parent(&own) != abs(&cfgs[i].dir()) {
            return Err(format!("files: {} is not in {}", own, cfgs[i].dir()));
        }
        if let Some(j) = owns.iter().position(|o| *o == own) {
            return Err(format!("mixed up: {} is used by {:?} and {:?}", own, cfgs[j], cfgs[i]));
        }
        owns.push(own);
    }
    let have = all_files();
    if have.len() != owns.len() {
        return Err(format!("files: {:?} after {} runs", have.keys().collect::<Vec<_>>(), owns.len()));
    }
    for (o, r) in owns.iter().zip(&recs) {
        let t = data_of(o)?;
        let lines: Vec<&str> = t.lines().skip_while(|l| !is_marker(l)).skip(1).collect();
        if lines != r.iter().map(|s| s.as_str()).collect::<Vec<_>>() {
            return Err(format!("mixed up: {} holds {:?}", o, lines));
        }
    }
    for d in all_dirs() {
        if !dirs0.contains(&d) && !cfgs.iter().any(|c| abs(&c.dir()) == d || abs(&c.dir()).starts_with(&format!("{}/", d))) {
            return Err(format!("files: directory {} was created", d));
        }
    }
    nontrivial();
    // started in other ways
    for _ in 0..1 + g(4) {
        let before = all_files();
        let dirs = all_dirs();
        let nan = [4usize, 5].map(|n| n + (p.an == An::TimeVecAnalysis) as usize);
        if chance(1, 6) {
            // an analysis over a range that makes no sense
            let x = 0.5 + g(1000) as f64 * 0.25;
            let bins = 10 + g(1000);
            let (lo, hi, n) = match g(3) {
                0 => (-x, x, bins),
                1 => (x, x * 0.5, bins),
                _ => (x, 2.0 * x, g(10)),
            };
            let mut args = cfgs[0].args(p, 0);
            args.truncate(p.skip);
            if p.an == An::TimeVecAnalysis {
                args.push((1 + g(4)).to_string());
            }
            args.extend([lo.to_string(), hi.to_string(), n.to_string(), cfgs[0].dir()]);
            let r = launch(vec![Launch { before: vec![], delay: 0, prog: p, args: args.clone(), job: Job::new(vec![], Work::None), faults: vec![] }]);
            if r[0].end != End::Other(Error::make_error_syntax(ErrorCode::InvalidArgumentInput).to_string()) {
                return Err(format!("range: {:?} ended with {:?}", args, r[0].end));
            }
            if all_files() != before || all_dirs() != dirs {
                return Err(format!("range: {:?} left something behind", args));
            }
            count("ranges refused");
        } else if chance(1, 2) {
            // analysis
            let i = g(cfgs.len() as u64) as usize;
            let mut s = gen_spec(p.an, 1);
            s.num_var = spec.num_var;
            let dir = cfgs[i].dir();
            let r = launch(vec![Launch { before: vec![], delay: 0, prog: p, args: s.args(p, &dir, g(3)), job: Job::new(vec![], Work::None), faults: vec![] }]);
            if r[0].end != End::Ok {
                return Err(format!("dispatch: {} analysis arguments ended with {:?}", s.args(p, &dir, 0).len() - p.skip, r[0].end));
            }
            if r[0].report().set_up {
                return Err("dispatch: analysis arguments started a simulation".into());
            }
            untouched(&before, "analysis")?;
            let d = own_dir(&r[0])?;
            if let Some(k) = all_files().keys().find(|k| !before.contains_key(*k) && !k.starts_with(&format!("{}/", d))) {
                return Err(format!("dispatch: analysis created {}", k));
            }
            // and it is this analysis, of this directory
            let mut gs: Vec<Group> = vec![];
            for (k, c) in cfgs.iter().enumerate() {
                if abs(&c.dir()) != abs(&dir) {
                    continue;
                }
                let rs = recs[k].iter().map(|l| parse_rec(p.an, l).expect("own record"));
                match gs.iter_mut().find(|x| x.key == c.key(p)) {
                    Some(x) => x.recs.extend(rs),
                    None => gs.push(Group { key: c.key(p), dist_name: runs[k].report().dist_name, recs: rs.collect(), torn: vec![] }),
                }
            }
            let read: Vec<Vec<Vec<Rec>>> = gs.iter().map(|x| vec![x.recs.clone()]).collect();
            check_summary(&files(&dir), &d, p, &s, &gs).map_err(|e| format!("dispatch: {}", e))?;
            check_distributions(&files(&dir), &d, p, &s, &gs, &read).map_err(|e| format!("dispatch: {}", e))?;
        } else {
            let mut n = g(total as u64 + 4) as usize;
            if chance(1, 3) {
                n = [nan[0] - 1, nan[1] + 1, total - 1, total + 1][g(4) as usize];
            }
            if nan.contains(&n) || n == total {
                continue;
            }
            let full = cfgs[0].args(p, g(u64::MAX));
            let mut args: Vec<String> = full.iter().take(p.skip).cloned().collect();
            let proper: Vec<String> = full.iter().skip(p.skip).cloned().collect();
            for i in 0..n {
                args.push(match g(3) {
                    0 => "x".into(),
                    _ => proper.get(i).cloned().unwrap_or_else(|| "1".into()),
                });
            }
            let r = launch(vec![Launch { before: vec![], delay: 0, prog: p, args, job: Job::new(vec![], Work::None), faults: vec![] }]);
            let want = Error::make_error_syntax(ErrorCode::InvalidNumberOfArguments).to_string();
            if r[0].end != End::Other(want) {
                return Err(format!("dispatch: {} arguments (of {}) ended with {:?}", n, total, r[0].end));
            }
            if all_files() != before || all_dirs() != dirs {
                return Err(format!("dispatch: {} arguments changed the file system", n));
            }
            count("wrong argument count");
        }
    }
    Ok(())
}
