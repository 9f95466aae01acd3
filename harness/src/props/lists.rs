//! C11 (clocks) and C12 (the agent list): histories against reference models.
use crate::props::dynamics::callers;
use crate::sim::*;
use moledyn::prelude::*;
use std::collections::BTreeSet;

type R = Result<(), String>;

// ---- C11 -----------------------------------------------------------------------

/// What a clock has to do next.
#[derive(Clone, Debug)]
struct Model {
    step0: f64,
    top: f64,
    length: u64, // 0: constant
    inc: f64,
    tmax: f64,
    time: f64,
    step: f64,
    done: u64, // steps since the last growth
}
impl Model {
    fn renew(&mut self) {
        self.time = 0.0;
        self.step = self.step0;
        self.done = 0;
    }
    /// A refused delivery may already have made the step grow.
    fn ended(&mut self, step: f64) {
        let (want, grew) = self.next_step();
        if grew && near(step, want) && step != self.step {
            self.step = step;
            self.done = 0;
        }
    }
    /// the step of the next delivery
    fn next_step(&self) -> (f64, bool) {
        if self.length > 0 && self.done == self.length && self.step < self.top {
            ((self.step * self.inc).min(self.top), true)
        } else {
            (self.step, false)
        }
    }
}

trait Clk: Clone + PartialEq + std::fmt::Debug + Iterator<Item = f64> + TimeIterator {
    fn factor(&self) -> f64;
    fn set_factor(&mut self, _f: f64) -> Option<Result<(), Error>> {
        None
    }
}
impl Clk for ConstStep {
    fn factor(&self) -> f64 {
        1.0
    }
}
impl Clk for ExponentialStep {
    fn factor(&self) -> f64 {
        self.inc
    }
    fn set_factor(&mut self, f: f64) -> Option<Result<(), Error>> {
        Some(self.set_inc(f))
    }
}

fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * b.abs()
}

/// Take one delivery and compare; false at the end.
fn deliver<C: Clk>(c: &mut C, m: &mut Model, paired: bool) -> Result<bool, String> {
    let (want, grew) = m.next_step();
    let (time, step) = if paired {
        let mut it = c.into_diff();
        let before = c.clone();
        let got = it.next();
        if *c != before {
            return Err(format!("handed out: iterating changed {:?} to {:?}", before, c));
        }
        *c = it.timeiter;
        match got {
            Some((t, d)) => (Some(t), d),
            None => (None, f64::NAN),
        }
    } else {
        let t = c.next();
        (t, c.dt())
    };
    note(|| format!("{:?} -> {:?} {}", m, time, step));
    match time {
        None => {
            if m.time <= m.tmax {
                return Err(format!("ended: at time {} with maximum {} ({:?})", m.time, m.tmax, c));
            }
            if c.current_time() <= m.tmax {
                return Err(format!("ended: current time {} with maximum {}", c.current_time(), m.tmax));
            }
            m.ended(c.dt());
            Ok(false)
        }
        Some(t) => {
            if t != m.time {
                return Err(format!("time: {} delivered, previous time plus step is {} ({:?})", t, m.time, c));
            }
            if t > m.tmax {
                return Err(format!("time: {} exceeds the maximum {}", t, m.tmax));
            }
            if !near(step, want) || (m.length == 0 && step != want) || step > m.top || step < m.step {
                return Err(format!("step: {} announced at {}, expected {} ({:?})", step, t, want, c));
            }
            if c.dt() != step {
                return Err(format!("step: {} announced, clock says {}", step, c.dt()));
            }
            m.time = t + step;
            if c.current_time() != m.time {
                return Err(format!("time: clock stands at {}, expected {} + {}", c.current_time(), t, step));
            }
            if grew {
                m.done = 0;
                count("step growths");
            }
            m.step = step;
            m.done += 1;
            Ok(true)
        }
    }
}

fn clock_history<C: Clk>(mut c: C, mut m: Model) -> R {
    sample(|| format!("{:?}", c));
    if c.current_time() != 0.0 || c.dt() != m.step0 {
        return Err(format!("start: {:?}", c));
    }
    m.inc = c.factor();
    if m.length > 0 && !(m.inc > 1.0) {
        return Err(format!("growth: factor {} of {:?}", m.inc, c));
    }
    for _ in 0..4 + g(12) {
        yield_point();
        match g(9) {
            0 | 1 | 2 => {
                // a stretch of deliveries
                let n = match g(4000) {
                    0..=98 => 200 + g(2000),
                    99 => 65_600 + m.length,
                    _ => 1 + g(60),
                };
                let paired = chance(1, 2);
                for _ in 0..n {
                    if !deliver(&mut c, &mut m, paired)? {
                        count("clock ended");
                        break;
                    }
                    nontrivial();
                }
            }
            3 => {
                // a clock handed out for iteration continues from here and
                // disturbs nothing
                let keep = c.clone();
                let mut it = c.into_diff();
                let mut m2 = m.clone();
                let n = 1 + g(40);
                for _ in 0..n {
                    let (want, grew) = m2.next_step();
                    match it.next() {
                        None => {
                            if m2.time <= m2.tmax {
                                return Err(format!("ended: handed-out clock at {} with maximum {}", m2.time, m2.tmax));
                            }
                            m2.ended(it.timeiter.dt());
                            break;
                        }
                        Some((t, d)) => {
                            if t != m2.time || t > m2.tmax || !near(d, want) {
                                return Err(format!("handed out: delivered ({}, {}), expected ({}, {})", t, d, m2.time, want));
                            }
                            if grew {
                                m2.done = 0;
                            }
                            m2.step = d;
                            m2.done += 1;
                            m2.time = t + d;
                        }
                    }
                    if chance(1, 10) {
                        yield_point();
                    }
                }
                if c != keep {
                    return Err(format!("handed out: iterating changed {:?} to {:?}", keep, c));
                }
                if chance(1, 3) {
                    c = it.timeiter;
                    m = m2;
                }
                nontrivial();
            }
            4 => {
                c.renew();
                m.renew();
                count("renewals");
                if c.current_time() != 0.0 || c.dt() != m.step0 {
                    return Err(format!("renew: {:?} instead of time 0 and step {}", c, m.step0));
                }
            }
            5 => {
                let t = gen_tmax(m.step0, m.top);
                c.set_tmax(t).map_err(|e| format!("set_tmax: {} refused: {:?}", t, e))?;
                m.tmax = if t == 0.0 { f64::MAX } else { t };
            }
            6 => {
                let keep = c.clone();
                if c.set_tmax(-1.0 - g(5) as f64).is_ok() || c != keep {
                    return Err(format!("set_tmax: negative maximum left {:?}", c));
                }
            }
            7 => {
                let f = pick(&[1.05, 1.2, 1.1, 3.0, 20.0, 1.0001, 1.0, 0.5]);
                let keep = c.clone();
                match c.set_factor(f) {
                    None => {}
                    Some(Ok(())) => {
                        m.inc = c.factor();
                        if f <= 1.0 || !(m.inc > 1.0 && m.inc <= f) {
                            return Err(format!("growth: factor {} after asking for {}", m.inc, f));
                        }
                        if f <= 1.2 && m.inc != f {
                            return Err(format!("growth: factor {} after asking for {}", m.inc, f));
                        }
                    }
                    Some(Err(e)) => {
                        if f > 1.0 {
                            return Err(format!("growth: factor {} refused: {:?}", f, e));
                        }
                        if c != keep {
                            return Err(format!("growth: refused factor left {:?}", c));
                        }
                    }
                }
            }
            _ => {
                // a plain copy is independent
                let mut d = c.clone();
                let mut m2 = m.clone();
                deliver(&mut d, &mut m2, false)?;
                d.renew();
                if chance(1, 2) {
                    deliver(&mut c, &mut m, false)?;
                }
            }
        }
    }
    Ok(())
}
fn gen_tmax(lo: f64, hi: f64) -> f64 {
    let t = match g(5) {
        0 => 0.0,
        1 => lo * g(100) as f64,
        2 => lo * 10.5,
        3 => hi * g(50) as f64,
        _ => pick(&[1.0, 100.0, 1e-3]),
    };
    if t < 1e-9 { 0.0 } else { t }
}

pub fn c11() -> R {
    callers(3, |_| {
        if chance(1, 3) {
            let dt = pick(&[1.0, 0.1, 1e-3, 1e-10, 0.3, 7.0, 1e-14, 2.5]) * (1 + g(3)) as f64;
            let mut m = Model { step0: dt, top: dt, length: 0, inc: 1.0, tmax: f64::MAX, time: 0.0, step: dt, done: 0 };
            let c = if chance(1, 2) {
                ConstStep::new(dt).map_err(|e| format!("new: {} refused: {:?}", dt, e))?
            } else {
                let tmax = gen_tmax(dt, dt);
                m.tmax = if tmax == 0.0 { f64::MAX } else { tmax };
                ConstStep::convert_from(&ConstStepArguments { dt, tmax })
            };
            clock_history(c, m)
        } else {
            let lo = pick(&[1e-3, 1e-10, 1.0, 0.1, 0.25, 1e-5]) * (1 + g(3)) as f64;
            let hi = lo * pick(&[1.0, 1.1, 2.0, 10.0, 1e3, 1e6, 3.7]);
            let by_args = chance(1, 2);
            let length = if chance(1, 400) { pick(&[32_768, 65_535, 65_536, 65_537]) } else if chance(1, 12) { 20 + g(400) } else if by_args { 10 + g(12) } else { 1 + g(14) };
            let mut m = Model { step0: lo, top: hi, length, inc: 0.0, tmax: f64::MAX, time: 0.0, step: lo, done: 0 };
            let c = if by_args {
                let tmax = gen_tmax(lo, hi);
                m.tmax = if tmax == 0.0 { f64::MAX } else { tmax };
                ExponentialStep::convert_from(&ExponentialStepArguments { dt_min: lo, dt_max: hi, length: length as usize, tmax })
            } else {
                ExponentialStep::new(lo, hi, length as usize).map_err(|e| format!("new: refused: {:?}", e))?
            };
            clock_history(c, m)
        }
    })
}

// ---- C12 -----------------------------------------------------------------------

trait Item: Clone + PartialEq + std::fmt::Debug + Send {
    fn make(k: u64) -> Self;
    fn poke(&mut self);
}
impl Item for u64 {
    fn make(k: u64) -> Self {
        k * 1000
    }
    fn poke(&mut self) {
        *self += 1;
    }
}
impl Item for Position<f64> {
    fn make(k: u64) -> Self {
        Position::new(vec![k as f64 + 0.5, -1.0, 3.0])
    }
    fn poke(&mut self) {
        self.coordinate[1] -= 1.0;
    }
}

struct Listed<T> {
    list: LinkedList<T>,
    items: Vec<T>,
    order: Vec<usize>,
}
impl<T: Item> Listed<T> {
    fn new() -> Self {
        let n = match g(150) {
            149 => 100 + g(300),
            145..=148 => 10 + g(40),
            _ => g(9),
        };
        let items: Vec<T> = (0..n).map(T::make).collect();
        let list = if chance(1, 2) {
            LinkedList::from(items.clone())
        } else {
            let mut l = LinkedList::new();
            items.iter().for_each(|x| l.push(x.clone()));
            l
        };
        Listed { list, order: (0..n as usize).collect(), items }
    }
    fn any(&self) -> usize {
        if !self.order.is_empty() && chance(3, 4) {
            self.order[g(self.order.len() as u64) as usize]
        } else {
            g(self.items.len() as u64 + 2) as usize
        }
    }
    fn del(&mut self, i: usize) -> R {
        let allowed = self.order.contains(&i);
        let snap = (self.list.links.clone(), self.list.head, self.list.tail, self.list.current);
        let r = self.list.del(i);
        note(|| format!("del {}: {:?}", i, r.is_ok()));
        if r.is_ok() != allowed {
            return Err(format!("del: of {} with live {:?} gave {:?}", i, self.order, r));
        }
        if !allowed {
            count("refused removals");
            if (self.list.links.clone(), self.list.head, self.list.tail, self.list.current) != snap {
                return Err(format!("del: refused removal of {} changed the list", i));
            }
        } else {
            count("removals");
        }
        self.order.retain(|x| *x != i);
        Ok(())
    }
    fn contents(&self) -> R {
        if self.list.contents != self.items {
            return Err(format!("contents: {:?}, expected {:?}", self.list.contents, self.items));
        }
        Ok(())
    }
    /// a single pass, with removals during it
    fn single(&mut self) -> R {
        let start = self.order.clone();
        let variant = g(5);
        let dels = chance(1, 2);
        self.list.into_iter();
        let mut seen: Vec<usize> = vec![];
        loop {
            // what has to come: the first live one after all seen
            let at = seen.last().map(|l| start.iter().position(|x| x == l).unwrap() + 1).unwrap_or(0);
            let want = start[at..].iter().find(|x| self.order.contains(x)).copied();
            let (idx, val): (Option<usize>, Option<T>) = match variant {
                0 => (None, self.list.get().cloned()),
                1 => {
                    let poke = chance(1, 3);
                    match self.list.get_mut() {
                        None => (None, None),
                        Some(x) => {
                            let old = x.clone();
                            if poke {
                                x.poke();
                                if let Some(w) = want {
                                    self.items[w].poke();
                                    if self.items[w] != *x {
                                        return Err(format!("pass: mutable access reached {:?} instead of item {}", old, w));
                                    }
                                }
                            }
                            (None, Some(x.clone()))
                        }
                    }
                }
                2 => match self.list.enumerate() {
                    None => (None, None),
                    Some((i, x)) => (Some(i), Some(x.clone())),
                },
                3 => match self.list.enumerate_mut() {
                    None => (None, None),
                    Some((i, x)) => {
                        if chance(1, 3) {
                            x.poke();
                            if i < self.items.len() {
                                self.items[i].poke();
                            }
                        }
                        (Some(i), Some(x.clone()))
                    }
                },
                _ => match self.list.indicies() {
                    None => (None, None),
                    Some(i) => (Some(i), self.items.get(i).cloned()),
                },
            };
            note(|| format!("pass {} delivers {:?} {:?}, expected {:?}", variant, idx, val, want));
            match (want, val) {
                (None, None) => break,
                (None, Some(v)) => return Err(format!("pass: delivered {:?} {:?} after all live elements of {:?}", idx, v, self.order)),
                (Some(w), None) => return Err(format!("pass: ended before element {} of live {:?}", w, self.order)),
                (Some(w), Some(v)) => {
                    if idx.is_some_and(|i| i != w) || v != self.items[w] {
                        return Err(format!("pass: delivered {:?} {:?} instead of element {} of live {:?}", idx, v, w, self.order));
                    }
                    seen.push(w);
                }
            }
            if dels && chance(1, 3) {
                let k = 1 + g(2);
                for _ in 0..k {
                    // the current one, a coming one, an earlier one, a dead one
                    let i = if chance(1, 2) { *seen.last().unwrap() } else { self.any() };
                    self.del(i)?;
                }
                count("removals during a pass");
            }
            if chance(1, 6) {
                yield_point();
            }
        }
        nontrivial();
        Ok(())
    }
    fn double(&mut self) -> R {
        let variant = g(3);
        let dels = chance(1, 2);
        self.list.into_double_iter();
        let mut seen: BTreeSet<(usize, usize)> = BTreeSet::new();
        loop {
            let got: Option<(usize, usize)> = match variant {
                0 => match self.list.get_double() {
                    None => None,
                    Some((a, b)) => {
                        let f = |v: &T| self.items.iter().position(|x| x == v);
                        match (f(a), f(b)) {
                            (Some(i), Some(j)) => Some((i, j)),
                            _ => return Err("pairs: delivered something not in the list".into()),
                        }
                    }
                },
                1 => match self.list.enumerate_double() {
                    None => None,
                    Some((i, a, j, b)) => {
                        if self.items.get(i) != Some(a) || self.items.get(j) != Some(b) {
                            return Err(format!("pairs: ({}, {}) delivered with {:?} and {:?}", i, j, a, b));
                        }
                        Some((i, j))
                    }
                },
                _ => self.list.indicies_double(),
            };
            note(|| format!("pairs deliver {:?}", got));
            let (i, j) = match got {
                None => break,
                Some(p) => p,
            };
            if i == j || !self.order.contains(&i) || !self.order.contains(&j) {
                return Err(format!("pairs: ({}, {}) with live {:?}", i, j, self.order));
            }
            if !seen.insert((i.min(j), i.max(j))) {
                return Err(format!("pairs: ({}, {}) delivered twice, live {:?}", i, j, self.order));
            }
            if dels && chance(1, 3) {
                self.del(j)?;
                count("removals during a pair pass");
            }
            if chance(1, 12) {
                yield_point();
            }
        }
        for (k, i) in self.order.iter().enumerate() {
            for j in &self.order[k + 1..] {
                if !seen.contains(&(*i.min(j), *i.max(j))) {
                    return Err(format!("pairs: ({}, {}) never delivered, live {:?}", i, j, self.order));
                }
            }
        }
        if self.order.len() > 1 {
            nontrivial();
        }
        Ok(())
    }
    fn step(&mut self) -> R {
        match g(12) {
            0 | 1 | 2 => self.single()?,
            3 | 4 | 5 => self.double()?,
            6 | 7 => {
                let k = self.items.len() as u64;
                self.items.push(T::make(k));
                self.order.push(k as usize);
                self.list.push(T::make(k));
                note(|| format!("push {}", k));
            }
            8 | 9 => {
                let i = self.any();
                self.del(i)?;
            }
            10 => {
                self.list.connect_all().map_err(|e| format!("connect: {:?}", e))?;
                self.order = (0..self.items.len()).collect();
                note(|| "connect_all".into());
            }
            _ => {
                // a pass given up half way
                self.list.into_iter();
                for _ in 0..g(4) {
                    self.list.indicies();
                }
            }
        }
        self.contents()
    }
}

/// A list longer than small counters reach.
fn long_list() -> R {
    let n = pick(&[32_768usize, 65_535, 65_536, 65_537]) + g(20) as usize;
    let items: Vec<u64> = (0..n as u64).map(u64::make).collect();
    let mut list = if chance(1, 2) {
        LinkedList::from(items.clone())
    } else {
        let mut l = LinkedList::new();
        items.iter().for_each(|x| l.push(*x));
        l
    };
    let mut live = vec![true; n];
    sample(|| format!("list of {}", n));
    for _ in 0..3 {
        for _ in 0..g(6) {
            let i = pick(&[0, 1, n / 2, 32_767, n - 2, n - 1]);
            if list.del(i).is_ok() != live[i] {
                return Err(format!("del: of {} of {} live {}", i, n, live[i]));
            }
            live[i] = false;
        }
        list.into_iter();
        for i in (0..n).filter(|i| live[*i]) {
            match list.enumerate() {
                Some((k, x)) if k == i && *x == items[i] => {}
                x => return Err(format!("pass: {:?} instead of {} of {}", x, i, n)),
            }
        }
        if let Some(x) = list.enumerate() {
            return Err(format!("pass: {:?} after all {}", x, n));
        }
        if chance(1, 3) {
            list.connect_all().map_err(|e| format!("connect: {:?}", e))?;
            live.iter_mut().for_each(|x| *x = true);
        }
    }
    count("very long lists");
    nontrivial();
    Ok(())
}

pub fn c12() -> R {
    callers(3, |_| {
        if chance(1, 2000) {
            return long_list();
        }
        let n = 5 + g(25);
        if chance(2, 3) {
            let mut ls: Vec<Listed<u64>> = (0..1 + g(2)).map(|_| Listed::new()).collect();
            sample(|| format!("lists of {:?}", ls.iter().map(|l| l.items.len()).collect::<Vec<_>>()));
            for _ in 0..n {
                yield_point();
                let k = g(ls.len() as u64) as usize;
                ls[k].step()?;
            }
            for l in &mut ls {
                l.single()?;
                l.double()?;
            }
            Ok(())
        } else {
            let mut l: Listed<Position<f64>> = Listed::new();
            for _ in 0..n {
                yield_point();
                if chance(1, 5) {
                    l.list.clear();
                    for &i in &l.order {
                        l.items[i].coordinate.iter_mut().for_each(|x| *x = 0.0);
                    }
                    note(|| "clear".into());
                    count("clears");
                    if l.list.contents != l.items {
                        return Err(format!("clear: with live {:?} left {:?}", l.order, l.list.contents));
                    }
                    // make them different again, for the passes
                    for (k, x) in l.items.iter_mut().enumerate() {
                        *x = Position::make(k as u64);
                    }
                    l.list.contents = l.items.clone();
                } else {
                    l.step()?;
                }
            }
            Ok(())
        }
    })
}
