//! A simulation program's main loop, written with the crate's pieces the way
//! its example does, generic over the kinds.  Every step is a scheduling point.
use crate::jobs;
use crate::meta::An;
use crate::sim::*;
use moledyn::prelude::*;
use std::fmt::Debug;

pub struct Plan {
    pub num_ensemble: u64,
    pub seed: u128,
    pub kind: An,
}

/// How the harness wants the loop driven (set by the scenario).
#[derive(Clone, Debug)]
pub struct MdJob {
    pub max_steps: usize,
    /// at this step of this ensemble: copy everything, run the copy ahead, and
    /// require the original to continue identically
    pub snapshot: Option<(u64, usize)>,
    /// do the copy's work before the original's (0), after it (1) or in step with it (2)
    pub copy_when: u64,
    /// move by the value-returning forms
    pub by_value: bool,
}
impl Default for MdJob {
    fn default() -> Self {
        MdJob { max_steps: 25, snapshot: None, copy_when: 0, by_value: false }
    }
}

pub trait Agent: Clone + Debug + AgentCore<f64> + Passive<f64, f64> + Sized + PartialEq {
    fn renew(&mut self, sys: &dyn SystemCore<f64>, target: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error>;
    fn pos_mut(&mut self) -> &mut Position<f64>;
    fn uniform(&self) -> bool;
    fn pair_force(&self, _r: f64) -> Option<f64> {
        None
    }
    fn merge_range(&self) -> Option<f64> {
        None
    }
    fn merge(_l: &mut LinkedList<Self>, _i: usize, _j: usize) -> Result<(), Error> {
        Ok(())
    }
}
macro_rules! agent_common {
    () => {
        fn renew(&mut self, sys: &dyn SystemCore<f64>, target: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error> {
            self.renew_uniform(sys, target, rng)
        }
        fn pos_mut(&mut self) -> &mut Position<f64> {
            &mut self.pos
        }
        fn uniform(&self) -> bool {
            matches!(self.itype, InitType::Uniform)
        }
    };
}
impl Agent for ContPassiveIndepAgent {
    agent_common!();
}
impl Agent for ContPassiveMergeAgent {
    agent_common!();
    fn merge_range(&self) -> Option<f64> {
        Some(2.0 * self.ptl_radius)
    }
    fn merge(l: &mut LinkedList<Self>, i: usize, j: usize) -> Result<(), Error> {
        l.merge(i, j)
    }
}
impl Agent for ContPassiveExpAgent {
    agent_common!();
    fn pair_force(&self, r: f64) -> Option<f64> {
        Some(self.force(r))
    }
}
impl Agent for ContPassiveLJAgent {
    agent_common!();
    fn pair_force(&self, r: f64) -> Option<f64> {
        Some(self.force(r))
    }
}
pub trait Clock: Clone + Debug + Iterator<Item = f64> + TimeIterator {}
impl Clock for ConstStep {}
impl Clock for ExponentialStep {}

pub fn copy_list<T: Clone>(l: &LinkedList<T>) -> LinkedList<T> {
    LinkedList { links: l.links.clone(), contents: l.contents.clone(), head: l.head, tail: l.tail, current: l.current }
}

struct State<'a, A: Agent, C: Clock> {
    sys: &'a dyn SystemCore<f64>,
    target: &'a dyn TargetCore<f64>,
    start: &'a [A],
    kind: An,
    limit: f64,
    by_value: bool,
    rng: Pcg64,
    clock: C,
    iter: moledyn::time_mod::TimeDiffIterator<C>,
    agents: LinkedList<A>,
    moves: LinkedList<Position<f64>>,
    disp: Position<f64>,
    // current ensemble
    times: Vec<f64>,
    pairs: Vec<(f64, f64)>,
    now: f64,
    done: bool,
    steps: usize,
}
impl<'a, A: Agent, C: Clock> State<'a, A, C> {
    fn copy(&self) -> Self {
        State {
            sys: self.sys,
            target: self.target,
            start: self.start,
            kind: self.kind,
            limit: self.limit,
            by_value: self.by_value,
            rng: self.rng.clone(),
            clock: self.clock.clone(),
            iter: moledyn::time_mod::TimeDiffIterator { timeiter: self.iter.timeiter.clone() },
            agents: copy_list(&self.agents),
            moves: copy_list(&self.moves),
            disp: self.disp.clone(),
            times: self.times.clone(),
            pairs: self.pairs.clone(),
            now: self.now,
            done: self.done,
            steps: self.steps,
        }
    }
    fn begin(&mut self) -> Result<(), Error> {
        self.clock.renew();
        self.iter = self.clock.into_diff();
        let _ = self.iter.next();
        for (i, a) in self.agents.contents.iter_mut().enumerate() {
            if self.start[i].uniform() {
                a.renew(self.sys, self.target, &mut self.rng)?;
            } else {
                *a = self.start[i].clone();
            }
        }
        self.agents.connect_all()?;
        self.moves.connect_all()?;
        self.times.clear();
        self.pairs.clear();
        self.now = 0.0;
        self.steps = 0;
        self.done = self.agents.contents.is_empty();
        Ok(())
    }
    fn step(&mut self) -> Result<(), Error> {
        let (time, dt) = match self.iter.next() {
            Some(x) => x,
            None => {
                self.done = true;
                return Ok(());
            }
        };
        self.now = time;
        self.steps += 1;
        self.moves.clear();
        if self.agents.contents[0].pair_force(1.0).is_some() {
            self.agents.into_double_iter();
            while let Some((i, a, j, b)) = self.agents.enumerate_double() {
                let r = if self.by_value {
                    let (v, r) = a.mutual_displacement(b)?;
                    self.disp = v;
                    r
                } else {
                    a.mutual_displacement_to_vec(b, &mut self.disp)?
                };
                let f = a.pair_force(r).unwrap() * dt;
                self.disp.mut_scalar_mul(f);
                self.moves.contents[i].mut_sub(&self.disp);
                self.moves.contents[j].mut_add(&self.disp);
            }
        }
        let mut found = vec![];
        self.agents.into_iter();
        while let Some((i, a)) = self.agents.enumerate_mut() {
            let m = &mut self.moves.contents[i];
            if self.by_value {
                let v = a.random_move(&mut self.rng, dt)?;
                m.mut_add(&v);
            } else {
                a.random_move_to_vec(&mut self.rng, dt, m)?;
            }
            let d = m.norm() / self.limit;
            if d > 1.0 {
                m.mut_scalar_mul(1.0 / d);
            }
            self.sys.check_bc(a.pos_mut(), m)?;
            if self.target.check_find(a.pos())? {
                found.push(i);
            }
        }
        for i in found {
            self.agents.del(i)?;
            self.moves.del(i)?;
            self.times.push(time);
        }
        if let Some(range) = self.agents.contents[0].merge_range() {
            let mut hits: Vec<(usize, usize)> = vec![];
            self.agents.into_double_iter();
            while let Some((i, a, j, b)) = self.agents.enumerate_double() {
                if a.mutual_distance(b)? < range && !hits.iter().any(|h| h.1 == i || h.1 == j) {
                    hits.push((i, j));
                }
            }
            for (i, j) in hits {
                A::merge(&mut self.agents, i, j)?;
                self.moves.del(j)?;
                self.times.push(time);
            }
        }
        let mut n = 0u32;
        let mut reach = 0.0;
        self.agents.into_iter();
        while let Some(a) = self.agents.get() {
            n += 1;
            reach += a.pos().norm();
        }
        self.pairs.push((time, reach));
        if n == 0 || (self.kind == An::TimeAnalysis && !self.times.is_empty()) {
            self.done = true;
        }
        Ok(())
    }
    fn record(&mut self) -> String {
        match self.kind {
            An::TimeAnalysis => format!("{:e}", self.times.first().cloned().unwrap_or(self.now)),
            An::TimeVecAnalysis => {
                let mut v = self.times.clone();
                v.resize(self.start.len().max(1), self.now);
                v.iter().map(|x| format!("{:e}", x)).collect::<Vec<_>>().join("\t")
            }
            An::ProcessAnalysis => {
                if self.pairs.is_empty() {
                    self.pairs.push((self.now, 0.0));
                }
                self.pairs.iter().map(|(t, x)| format!("({:e},{:e})", t, x)).collect::<Vec<_>>().join(" ")
            }
        }
    }
}

fn finish<A: Agent, C: Clock>(st: &mut State<A, C>, from: u64, to: u64, fresh: bool, steps: usize, out: &mut Vec<String>) -> Result<(), Error> {
    for k in from..to {
        if k > from || fresh {
            st.begin()?;
        }
        while !st.done && st.steps < steps {
            yield_point();
            st.step()?;
        }
        out.push(st.record());
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
pub fn run<A: Agent, C: Clock, W: Write>(
    plan: &Plan,
    sys: &dyn SystemCore<f64>,
    target: &dyn TargetCore<f64>,
    agents: &Vec<A>,
    clock: &C,
    w: &mut W,
) -> Result<(), Error> {
    let job = jobs::md_job();
    let dim = sys.position_out_of_system().dim();
    let n = agents.len();
    let mut st = State {
        sys,
        target,
        start: agents,
        kind: plan.kind,
        limit: 0.2,
        by_value: job.by_value,
        rng: rng_seed(plan.seed),
        clock: clock.clone(),
        iter: clock.into_diff(),
        agents: LinkedList::from(agents.clone()),
        moves: LinkedList::from(vec![Position::new(vec![0f64; dim]); n]),
        disp: Position::new(vec![0f64; dim]),
        times: vec![],
        pairs: vec![],
        now: 0.0,
        done: false,
        steps: 0,
    };
    // the copy's continuation: (records of the copy, records of the original from there on)
    let mut copied: Option<Vec<String>> = None;
    let mut pending: Option<State<A, C>> = None;
    let mut original: Vec<String> = vec![];
    let mut in_step: Vec<String> = vec![];
    let mut at = 0;
    for k in 0..plan.num_ensemble {
        st.begin()?;
        if let (Some(c), 2) = (pending.as_mut(), job.copy_when) {
            c.begin()?;
        }
        if let Some((e, s)) = job.snapshot {
            if e == k {
                while !st.done && st.steps < s.min(job.max_steps) {
                    yield_point();
                    st.step()?;
                }
                let mut c = st.copy();
                at = k;
                if job.copy_when > 0 {
                    pending = Some(c);
                } else {
                    let mut out = vec![];
                    finish(&mut c, k, plan.num_ensemble, false, job.max_steps, &mut out)?;
                    copied = Some(out);
                }
            }
        }
        while !st.done && st.steps < job.max_steps {
            yield_point();
            st.step()?;
            if let (Some(c), 2) = (pending.as_mut(), job.copy_when) {
                if !c.done {
                    c.step()?;
                }
            }
        }
        let rec = st.record();
        if let (Some(c), 2) = (pending.as_mut(), job.copy_when) {
            in_step.push(c.record());
        }
        if copied.is_some() || pending.is_some() {
            original.push(rec.clone());
        }
        jobs::started(&rec);
        write!(w, "{}\n", rec).map_err(Error::make_error_io)?;
        w.flush().map_err(Error::make_error_io)?;
        jobs::acked();
    }
    if let (Some(_), 2) = (pending.as_ref(), job.copy_when) {
        copied = Some(in_step);
    } else if let Some(mut c) = pending {
        let mut out = vec![];
        finish(&mut c, at, plan.num_ensemble, false, job.max_steps, &mut out)?;
        copied = Some(out);
    }
    if let Some(c) = copied {
        jobs::resumed(c, original);
    }
    Ok(())
}
