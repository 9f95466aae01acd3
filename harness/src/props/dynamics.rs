//! C08, C09, C10, C13, C15: histories of the dynamics pieces, run by up to
//! three simulated callers at once, each with its own reference model.  The
//! generator is part of the simulated environment: its state is chosen so that
//! chosen draws come out at their extremes.
use crate::sim::*;
use moledyn::system_mod::cont_circ::{check_bc_exact, check_bc_first_order};
use moledyn::prelude::*;
use moledyn::random_mod as rm;
use rand::distributions::Open01;
use rand::{Rng, RngCore};
use rand_distr::StandardNormal;

type R = Result<(), String>;
pub const EPS: f64 = f64::EPSILON;

/// Run the bodies as concurrent callers and return the first complaint.
pub fn callers(max: u64, body: impl Fn(usize) -> R + Sync) -> R {
    draw_benign(false);
    let n = 1 + g(max) as usize;
    let body = &body;
    let specs: Vec<Spec<R>> = (0..n).map(|i| Spec::new(&format!("caller{}", i), &[], move || body(i))).collect();
    if n > 1 {
        count("runs with concurrent callers");
    }
    for o in run_procs(specs) {
        match o.value {
            Ok(r) => r?,
            Err(p) => return Err(format!("panic: {}", p)),
        }
    }
    Ok(())
}

// ---- generator ---------------------------------------------------------------

const MULT: u128 = 0x2360_ED05_1FC6_5DA4_4385_DF64_9FCC_F645;
fn mult_inv() -> u128 {
    let mut x: u128 = MULT;
    for _ in 0..7 {
        x = x.wrapping_mul(2u128.wrapping_sub(MULT.wrapping_mul(x)));
    }
    x
}
/// A state whose output is `out`.
fn state_for(out: u64, hi: u64) -> u128 {
    let xsl = out.rotate_left((hi >> 58) as u32);
    ((hi as u128) << 64) | (hi ^ xsl) as u128
}
fn forced(after: u64, outs: &[u64], hi: u64, inc: u128) -> Pcg64 {
    let inv = mult_inv();
    let first = state_for(outs[0], hi);
    let inc = if outs.len() > 1 {
        let mut h2 = hi.rotate_left(17) ^ 0x5555;
        loop {
            let i = state_for(outs[1], h2).wrapping_sub(first.wrapping_mul(MULT));
            if i & 1 == 1 {
                break i;
            }
            h2 = h2.wrapping_add(1);
        }
    } else {
        inc | 1
    };
    let mut s = first;
    for _ in 0..=after {
        s = s.wrapping_sub(inc).wrapping_mul(inv);
    }
    let start = s.wrapping_sub(inc).wrapping_mul(inv).wrapping_sub(inc);
    let rng = Pcg64::new(start, inc >> 1);
    let mut t = rng.clone();
    for _ in 0..after {
        t.next_u64();
    }
    assert_eq!(t.next_u64(), outs[0], "harness: forced draw");
    if outs.len() > 1 {
        assert_eq!(t.next_u64(), outs[1], "harness: second forced draw");
    }
    rng
}
/// A generator for one operation: plain, or with extreme draws coming up.
pub fn gen_rng() -> Pcg64 {
    let ext = |k: u64| -> u64 {
        match k {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << 63,
            3 => u64::MAX << 8,          // ziggurat base strip, right tail
            4 => 0,                      // ... left
            5 => (1 << 63) - 1,
            6 => 1 << 12,
            _ => g(1 << 32) << 32 | g(256),
        }
    };
    match g(4) {
        0 => rng_seed(if chance(1, 4) { g(4) } else { g(1 << 30) } as u128),
        1 => rng_seed((g(u64::MAX) as u128) << 64 | g(u64::MAX) as u128),
        2 => {
            count("forced draws");
            let o = ext(g(8));
            forced(g(12), &[o], g(u64::MAX), g(u64::MAX) as u128)
        }
        _ => {
            count("forced draws");
            let o = [ext(g(8)), ext(g(8))];
            forced(g(12), &o, g(u64::MAX), 1)
        }
    }
}
pub fn same_state(a: &Pcg64, b: &Pcg64) -> bool {
    let (mut a, mut b) = (a.clone(), b.clone());
    (0..3).all(|_| a.next_u64() == b.next_u64())
}
/// A number in (-1, 1), often at a special place.
fn unit() -> f64 {
    match g(8) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        _ => (g(2_000_001) as f64 - 1e6) / 1e6,
    }
}
fn plain_unit() -> f64 {
    (g(2_000_001) as f64 - 1e6) / 1.000_001e6
}

// ---- systems -----------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub enum Sys {
    Circ(ContCircSystem),
    Cubic(ContCubicSystem),
    Cyl(ContCylindricalSystem),
}
impl Sys {
    pub fn core(&self) -> &dyn SystemCore<f64> {
        match self {
            Sys::Circ(s) => s,
            Sys::Cubic(s) => s,
            Sys::Cyl(s) => s,
        }
    }
    pub fn dim(&self) -> usize {
        match self {
            Sys::Circ(s) => s.dim,
            Sys::Cubic(s) => s.dim,
            Sys::Cyl(s) => s.dim,
        }
    }
    /// number of coordinates of the radial part, its radius, half width of the rest
    pub fn shape(&self) -> (usize, f64, f64) {
        match self {
            Sys::Circ(s) => (s.dim, s.sys_size, 0.0),
            Sys::Cubic(s) => (0, 0.0, s.sys_size),
            Sys::Cyl(s) => {
                let d = match s.sys_type {
                    SystemType::ContinuousCylindrical(d) => d,
                    _ => 0,
                };
                (d, s.sys_radius, s.sys_length)
            }
        }
    }
    pub fn inside(&self, p: &[f64], tol: f64) -> bool {
        let (d, r, l) = self.shape();
        p.len() == self.dim() && norm(&p[..d]) <= r * (1.0 + tol) && p[d..].iter().all(|x| x.abs() <= l * (1.0 + tol))
    }
    /// strictly outside, by more than rounding
    pub fn outside(&self, p: &[f64]) -> bool {
        let (d, r, l) = self.shape();
        p.len() == self.dim() && (norm(&p[..d]) > r * (1.0 + 1e-9) || p[d..].iter().any(|x| x.abs() > l * (1.0 + 1e-9)))
    }
    pub fn point(&self) -> Vec<f64> {
        let (d, r, l) = self.shape();
        let u: Vec<f64> = (0..d).map(|_| unit()).collect();
        let n = norm(&u);
        let scale = match g(4) {
            0 => r * (1.0 - 1e-15) / n,
            1 => r * 0.999 / n,
            2 if chance(1, 4) => r / n * pick(&[0.0, 1e-9, 1e-13, 1e-17]),
            _ => r / n * (g(1000) as f64 / 1001.0),
        };
        let mut p: Vec<f64> = u.iter().map(|x| if n > 0.0 { x * scale } else { 0.0 }).collect();
        while norm(&p) > r {
            p.iter_mut().for_each(|x| *x *= 1.0 - 1e-15);
        }
        p.extend((d..self.dim()).map(|_| unit() * l * if chance(1, 10) { pick(&[0.0, 1e-9, 1e-14]) } else { 1.0 }));
        p
    }
}
pub fn norm(p: &[f64]) -> f64 {
    p.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn gen_size() -> f64 {
    match g(4) {
        0 => 1.0,
        1 => pick(&[10.0, 3.0, 0.1, 0.7, 2.5]),
        2 => (1 + g(1_000_000)) as f64 * 1e-4,
        _ => pick(&[1e-3, 1e4, 1e-6, 1e6, 0.3]),
    }
}
pub fn gen_sys(max_dim: u64) -> Sys {
    let dim = 1 + g(max_dim) as usize;
    let by_args = chance(1, 2);
    let size = gen_size();
    match g(3) {
        0 => Sys::Circ(if by_args {
            ContCircSystem::convert_from(&ContCircSystemArguments {
                sys_type: SystemType::ContinuousCircular,
                bctype: BoundaryCond::Reflection,
                sys_size: size,
                dim,
            })
        } else {
            ContCircSystem::new(size, dim)
        }),
        1 => {
            let bctype = match g(3) {
                0 => BoundaryCond::Reflection,
                1 => BoundaryCond::Periodic,
                _ => BoundaryCond::Mixed(g(dim as u64 + 1) as usize),
            };
            Sys::Cubic(if by_args {
                ContCubicSystem::convert_from(&ContCubicSystemArguments { sys_type: SystemType::ContinuousRectangular, bctype, sys_size: size, dim })
            } else {
                ContCubicSystem::new(bctype, size, dim)
            })
        }
        _ => {
            let d = if dim > 1 { 1 + g(dim as u64) as usize } else { 1 };
            let length = if chance(1, 2) { size } else { gen_size() };
            Sys::Cyl(if by_args {
                ContCylindricalSystem::convert_from(&ContCylindricalSystemArguments {
                    sys_type: SystemType::ContinuousCylindrical(d),
                    bctype: BoundaryCond::Mixed(d),
                    sys_radius: size,
                    sys_length: length,
                    dim,
                })
            } else {
                ContCylindricalSystem::new(d, size, length, dim)
            })
        }
    }
}
fn pos(v: &[f64]) -> Position<f64> {
    Position::new(v.to_vec())
}
fn is_too_large(e: &Error) -> bool {
    *e == Error::make_error_syntax(ErrorCode::TooLargeTimeStep)
}

// ---- C08 -----------------------------------------------------------------------

#[derive(Clone, Copy)]
enum Rule {
    Mirror,
    Shift,
}

/// A step's displacement from `p`.
fn gen_step(sys: &Sys, p: &[f64]) -> Vec<f64> {
    let (d, r, l) = sys.shape();
    let mut dp: Vec<f64> = vec![];
    // radial part
    let way = g(10);
    if d > 0 {
        let s = norm(&p[..d]);
        let dir: Vec<f64> = if s > 0.0 && chance(1, 2) {
            p[..d].iter().map(|x| x / s).collect()
        } else if d > 1 && chance(1, 8) {
            // across the radius
            let mut u = vec![0.0; d];
            let i = g(d as u64 - 1) as usize;
            u[i] = -p[i + 1];
            u[i + 1] = p[i];
            let n = norm(&u);
            if n > 0.0 {
                u.iter().map(|x| x / n).collect()
            } else {
                u[i] = 1.0;
                u
            }
        } else {
            let u: Vec<f64> = (0..d).map(|_| plain_unit() + 1e-9).collect();
            let n = norm(&u);
            u.iter().map(|x| x / n).collect()
        };
        let len = match way {
            0 => 0.0,
            1 => r * pick(&[1e-3, 1e-7, 1e-11, 1e-14]),
            2 => r * 0.1,
            3 => (r - s) * (1.0 + 1e-6),
            4 => r - s,
            5 => r * (g(1000) as f64) * 2e-3,
            6 => r * (2.0 + g(1000) as f64 * 1e-3),
            7 => 2.0 * r,
            8 => r * pick(&[3.0, 4.0, 5.0, 100.0, 2.9999]),
            _ => r * (g(1000) as f64) * 1e-3,
        };
        dp.extend(dir.iter().map(|x| x * len));
    }
    for x in &p[d..] {
        let s = if chance(1, 2) { 1.0 } else { -1.0 };
        dp.push(match g(12) {
            0 => 0.0,
            1 => s * l * pick(&[1e-3, 1e-8, 1e-13]),
            2 => s * l * 0.1,
            3 => s * l - x,
            4 => (s * l - x) * (1.0 + 1e-15),
            5 => (s * l - x) * (1.0 + 1e-6),
            6 => s * l * (g(1000) as f64) * 2e-3,
            7 if way > 5 => 3.0 * s * l - x,
            8 if way > 5 => s * l * (2.0 + g(1000) as f64 * 2e-3),
            9 if way > 7 => s * l * pick(&[3.0, 4.0, 5.0, 100.0]),
            _ => s * l * g(1000) as f64 * 1e-3,
        });
    }
    dp
}

/// What the rules make of a step; None: may be refused or be either.
struct Verdict {
    to: Vec<f64>,
    must_accept: bool,
    must_refuse: bool,
    /// for each coordinate; a mere sum is rounded once
    tol: Vec<f64>,
    crossed: bool,
}
fn rule(sys: &Sys, p: &[f64], dp: &[f64]) -> Verdict {
    let (d, r, l) = sys.shape();
    let mut to: Vec<f64> = p.iter().zip(dp).map(|(a, b)| a + b).collect();
    let (mut must_accept, mut must_refuse, mut crossed) = (true, false, false);
    let mut scale: f64 = l.max(r);
    for (a, b) in p.iter().zip(dp) {
        scale = scale.max(a.abs()).max(b.abs());
    }
    let mut tol: Vec<f64> = p.iter().zip(dp).map(|(a, b)| 8.0 * EPS * (a.abs() + b.abs())).collect();
    let s = norm(&to[..d]);
    if s > r && d > 0 {
        crossed = true;
        tol[..d].iter_mut().for_each(|t| *t = 1e-12 * scale);
        let t = (2.0 * r - s) / s;
        to[..d].iter_mut().for_each(|x| *x *= t);
        let back = (2.0 * r - s).abs();
        if back > r * (1.0 + 1e-12) {
            must_refuse = true;
        }
        if !(back < r * (1.0 - 16.0 * EPS)) {
            must_accept = false;
        }
    }
    let how = |i: usize| match sys {
        Sys::Circ(_) => Rule::Mirror,
        Sys::Cyl(_) => Rule::Shift,
        Sys::Cubic(c) => match c.bctype {
            BoundaryCond::Reflection => Rule::Mirror,
            BoundaryCond::Periodic => Rule::Shift,
            BoundaryCond::Mixed(k) => {
                if i < k {
                    Rule::Mirror
                } else {
                    Rule::Shift
                }
            }
        },
    };
    for i in d..to.len() {
        let x = to[i];
        if x.abs() > l {
            crossed = true;
            tol[i] = 1e-12 * scale;
            to[i] = match how(i) {
                Rule::Mirror => x.signum() * 2.0 * l - x,
                Rule::Shift => x - x.signum() * 2.0 * l,
            };
            if to[i].abs() > l * (1.0 + 1e-12) {
                must_refuse = true;
            }
            if !(to[i].abs() <= l) {
                must_accept = false;
            }
        }
    }
    Verdict { to, must_accept: must_accept && !must_refuse, must_refuse, tol, crossed }
}

/// The sphere's other two ways to reflect: exactly, at the tangent plane of the point
/// where the step leaves, and its first-order form.
fn c08_tangent(s: &ContCircSystem, p: &[f64], dp: &[f64]) -> R {
    let (r, exact) = (s.sys_size, chance(2, 3));
    let mut q = pos(p);
    let mut step = pos(dp);
    let out = if exact { check_bc_exact(s.clone(), &mut q, &mut step) } else { check_bc_first_order(s.clone(), &mut q, &mut step) };
    let say = || format!("{} at {:?} moved by {:?} in {:?}, result {:?}", if exact { "exact" } else { "first order" }, p, dp, s, q.coordinate);
    let dot = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>();
    let mut to: Vec<f64> = p.iter().zip(dp).map(|(a, b)| a + b).collect();
    let gap = |to: &[f64]| to.iter().zip(&q.coordinate).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
    let plain = norm(&to) < r * (1.0 - 1e-9);
    let left = norm(&to) > r * (1.0 + 1e-9);
    if let Err(e) = &out {
        if !is_too_large(e) || plain {
            return Err(format!("refused: with {:?}: {}", e, say()));
        }
    } else if !(norm(&q.coordinate) <= r * (1.0 + 4.0 * EPS)) {
        return Err(format!("outside: after an accepted step: {}", say()));
    }
    if plain {
        if !(gap(&to) <= 8.0 * EPS * (norm(p) + norm(dp))) {
            return Err(format!("moved: {} instead of {:?}", say(), to));
        }
        return Ok(());
    }
    if !left || !(norm(dp) < 3.0 * r) {
        return Ok(());
    }
    count("boundary crossings");
    let (a, b, c) = (dot(dp, dp), dot(p, dp), dot(p, p) - r * r);
    let t = (-b + (b * b - a * c).max(0.0).sqrt()) / a;
    let at: Vec<f64> = p.iter().zip(dp).map(|(x, y)| x + t * y).collect();
    let rest: Vec<f64> = dp.iter().map(|y| (1.0 - t) * y).collect();
    let k = dot(&rest, &at) / (r * r);
    to.iter_mut().zip(&at).for_each(|(x, n)| *x -= 2.0 * k * n);
    if exact {
        if (out.is_ok() && norm(&to) > r * (1.0 + 1e-6)) || (out.is_err() && norm(&to) < r * (1.0 - 1e-6)) {
            return Err(format!("verdict: {:?} where the rule leads to {:?}: {}", out.is_ok(), to, say()));
        }
        if out.is_ok() && !(gap(&to) <= 1e-6 * r) {
            return Err(format!("moved: {} instead of {:?}", say(), to));
        }
    } else {
        let e = norm(dp) / r;
        if e <= 2e-3 && b > 0.3 * norm(p) * norm(dp) && out.is_ok() && !(gap(&to) <= 20.0 * e * e * r) {
            return Err(format!("moved: {} instead of about {:?}", say(), to));
        }
    }
    Ok(())
}

pub fn c08() -> R {
    callers(3, |_| {
        let sys = gen_sys(if chance(1, 5) { 12 } else { 5 });
        let mut p = sys.point();
        let n = 5 + g(30);
        sample(|| format!("{:?} from {:?}, {} steps", sys, p, n));
        for k in 0..n {
            yield_point();
            let dp = gen_step(&sys, &p);
            if let Sys::Circ(s) = &sys {
                if chance(1, 4) {
                    c08_tangent(s, &p, &dp)?;
                }
            }
            let v = rule(&sys, &p, &dp);
            let mut q = pos(&p);
            let mut step = pos(&dp);
            let out = match (&sys, g(2)) {
                (_, 0) => sys.core().check_bc(&mut q, &mut step),
                (Sys::Circ(s), _) => s.check_bc(&mut q, &mut step),
                (Sys::Cubic(s), _) => s.check_bc(&mut q, &mut step),
                (Sys::Cyl(s), _) => s.check_bc(&mut q, &mut step),
            };
            note(|| format!("step {} {:?} + {:?} -> {:?} {:?}", k, p, dp, out.is_ok(), q.coordinate));
            let say = || format!("{:?} at {:?} moved by {:?}, result {:?}", sys, p, dp, q.coordinate);
            match out {
                Ok(()) => {
                    if v.must_refuse {
                        return Err(format!("accepted: a step that its rule leaves outside: {}", say()));
                    }
                    if !sys.inside(&q.coordinate, 4.0 * EPS) || !sys.core().check_inclusion(&q).unwrap_or(false) {
                        return Err(format!("outside: after an accepted step: {}", say()));
                    }
                    if q.coordinate.len() != v.to.len() || !q.coordinate.iter().zip(&v.to).zip(&v.tol).all(|((a, b), t)| (a - b).abs() <= *t) {
                        return Err(format!("moved: {} instead of {:?}", say(), v.to));
                    }
                    if v.crossed {
                        count("boundary crossings");
                        nontrivial();
                    }
                    p = q.coordinate;
                }
                Err(e) => {
                    if !is_too_large(&e) {
                        return Err(format!("refused: with {:?}: {}", e, say()));
                    }
                    if v.must_accept {
                        return Err(format!("refused: a step that its rule keeps inside: {}", say()));
                    }
                    count("refused steps");
                }
            }
            // where a boundary step may start
            if chance(1, 10) {
                p = sys.point();
            }
        }
        Ok(())
    })
}

// ---- agents --------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Ag {
    Indep(ContPassiveIndepAgent),
    Merge(ContPassiveMergeAgent),
    Exp(ContPassiveExpAgent),
    Lj(ContPassiveLJAgent),
}
macro_rules! each {
    ($s:expr, $a:ident => $e:expr) => {
        match $s {
            Ag::Indep($a) => $e,
            Ag::Merge($a) => $e,
            Ag::Exp($a) => $e,
            Ag::Lj($a) => $e,
        }
    };
}
impl Ag {
    fn renew(&mut self, sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error> {
        each!(self, a => a.renew_uniform(sys, t, rng))
    }
    fn p(&self) -> &Position<f64> {
        each!(self, a => a.pos())
    }
    fn p_mut(&mut self) -> &mut Position<f64> {
        each!(self, a => &mut a.pos)
    }
    fn mtype(&self) -> MoveType {
        each!(self, a => a.mtype)
    }
    fn set_mtype(&mut self, m: MoveType) {
        each!(self, a => a.mtype = m)
    }
    fn random_move(&self, rng: &mut Pcg64, dt: f64) -> Result<Position<f64>, Error> {
        each!(self, a => a.random_move(rng, dt))
    }
    fn random_move_to_vec(&self, rng: &mut Pcg64, dt: f64, v: &mut Position<f64>) -> Result<(), Error> {
        each!(self, a => a.random_move_to_vec(rng, dt, v))
    }
    /// everything a renewal has to leave alone
    fn other(&self) -> String {
        match self {
            Ag::Indep(a) => format!("{:?} {:?}", a.agent_type, a.mtype),
            Ag::Merge(a) => format!("{:?} {:?} {:?}", a.agent_type, a.ptl_radius, a.alpha),
            Ag::Exp(a) => format!("{:?} {:?} {:?} {:?} {:?} {:?}", a.agent_type, a.mtype, a.gamma, a.strength, a.potential(0.7), a.force(0.7)),
            Ag::Lj(a) => format!("{:?} {:?} {:?} {:?} {:?} {:?}", a.agent_type, a.mtype, a.ptl_size, a.strength, a.potential(0.7), a.force(0.7)),
        }
    }
}
fn brownian() -> MoveType {
    MoveType::Brownian(match g(5) {
        0 => 1.0,
        1 => 0.0,
        2 => (1 + g(1000)) as f64 * 1e-2,
        3 => pick(&[1e-6, 1e6, 0.3]),
        _ => 2.0,
    })
}
fn gen_kind() -> (u64, f64, f64) {
    (g(4), pick(&[0.1, 1.0, 0.3, 2.0]), pick(&[0.0, 1.0, 0.5, 3.0, -1.0]))
}
/// An agent of the kind at a place, or not placed yet.
fn gen_agent(kind: (u64, f64, f64), at: Option<&[f64]>, m: MoveType, dim: usize) -> Ag {
    let (k, a, b) = kind;
    let it = match at {
        Some(p) => InitType::SpecificPosition(pos(p)),
        None => InitType::Uniform,
    };
    let by_args = at.is_none() || chance(1, 2);
    let first = |n: usize| g(n as u64) as usize;
    match k {
        0 => Ag::Indep(if by_args {
            let v = ContPassiveIndepAgent::convert_from(&ContPassiveIndepAgentArguments {
                agent_type: AgentType::ContinuousPassiveIndependent,
                mtype: m,
                itype: it,
                num_agent: 2,
            });
            v[first(2)].clone()
        } else {
            ContPassiveIndepAgent::new(m, pos(at.unwrap()))
        }),
        1 => Ag::Merge(if by_args {
            let v = ContPassiveMergeAgent::convert_from(&ContPassiveMergeAgentArguments {
                agent_type: AgentType::ContinuousPassiveInteracting,
                size: 1,
                mtype: m,
                itype: it,
                ptl_radius: a,
                alpha: b,
                num_agent: 2,
            });
            v[first(2)].clone()
        } else {
            ContPassiveMergeAgent::new(m, pos(at.unwrap()), a, b)
        }),
        2 => Ag::Exp(if by_args {
            let v = ContPassiveExpAgent::convert_from(&ContPassiveExpAgentArguments {
                agent_type: AgentType::ContinuousPassiveInteracting,
                mtype: m,
                itype: it,
                gamma: a,
                exp_dim: dim,
                strength: b,
                num_agent: 2,
            });
            v[first(2)].clone()
        } else {
            ContPassiveExpAgent::new(InteractType::Exponential(dim, a), m, pos(at.unwrap()), b)
        }),
        _ => Ag::Lj(if by_args {
            let v = ContPassiveLJAgent::convert_from(&ContPassiveLJAgentArguments {
                agent_type: AgentType::ContinuousPassiveInteracting,
                mtype: m,
                itype: it,
                ptl_size: a,
                strength: b,
                num_agent: 2,
            });
            v[first(2)].clone()
        } else {
            ContPassiveLJAgent::new(InteractType::LennardJones(a), m, pos(at.unwrap()), b)
        }),
    }
}

// ---- C09 -----------------------------------------------------------------------

/// A target kind of the caller's own.
struct OwnTarget {
    target_pos: Position<f64>,
    target_size: f64,
}
impl TargetCore<f64> for OwnTarget {
    fn target_type(&self) -> TargetType {
        TargetType::ContinuousAtBoundary
    }
    fn check_find(&self, p: &Position<f64>) -> Result<bool, Error> {
        if p.coordinate.len() != self.target_pos.coordinate.len() {
            return Err(Error::make_error_syntax(ErrorCode::InvalidDimension));
        }
        let d: Vec<f64> = p.coordinate.iter().zip(&self.target_pos.coordinate).map(|(a, b)| a - b).collect();
        Ok(norm(&d) < self.target_size)
    }
}
enum Tg {
    Bulk(ContBulkTarget),
    Own(OwnTarget),
}
impl Tg {
    fn core(&self) -> &dyn TargetCore<f64> {
        match self {
            Tg::Bulk(t) => t,
            Tg::Own(t) => t,
        }
    }
    fn gap(&self, p: &[f64]) -> f64 {
        let (c, r) = match self {
            Tg::Bulk(t) => (&t.target_pos, t.target_size),
            Tg::Own(t) => (&t.target_pos, t.target_size),
        };
        let d: Vec<f64> = p.iter().zip(&c.coordinate).map(|(a, b)| a - b).collect();
        norm(&d) - r
    }
}
fn gen_target(sys: &Sys) -> Tg {
    let (d, r, l) = sys.shape();
    let least = if d == 0 {
        l
    } else if d == sys.dim() {
        r
    } else {
        r.min(l)
    };
    let c = match g(4) {
        0 => vec![0.0; sys.dim()],
        1 => sys.point(),
        2 => sys.point().iter().map(|x| x * 0.5).collect(),
        _ => sys.point().iter().map(|x| x * 3.0).collect(),
    };
    let mut c = c;
    let mut size = least * pick(&[0.1, 0.5, 0.7, 1e-3, 0.0, 0.69]);
    if (d == sys.dim() || sys.dim() == 1) && chance(1, 25) {
        // a target that leaves very little of the system
        let k = if sys.dim() == 1 { pick(&[50.0, 500.0, 5000.0, 30000.0]) } else { pick(&[30.0, 200.0, 800.0]) };
        c = vec![0.0; sys.dim()];
        size = least * (1.0f64 - 1.0 / k).powf(1.0 / sys.dim() as f64);
        count("target that nearly fills the system");
    }
    if chance(3, 4) {
        Tg::Bulk(ContBulkTarget::new(pos(&c), size))
    } else {
        Tg::Own(OwnTarget { target_pos: pos(&c), target_size: size })
    }
}
fn placed(what: &str, sys: &Sys, t: Option<&Tg>, p: &[f64]) -> R {
    if p.len() != sys.dim() {
        return Err(format!("dimension: {} has {} coordinates in {:?}", what, p.len(), sys));
    }
    if !sys.inside(p, 4.0 * EPS) {
        return Err(format!("placed: {} outside {:?}: {:?}", what, sys, p));
    }
    if let Some(t) = t {
        let (_, r, l) = sys.shape();
        if t.gap(p) < -1e-14 * r.max(l) || t.core().check_find(&pos(p)) != Ok(false) {
            return Err(format!("placed: {} inside the target, {:?}", what, p));
        }
    }
    Ok(())
}
/// The agent moves in the system's dimension.
fn moves_in(what: &str, a: &Ag, dim: usize) -> R {
    let mut b = a.clone();
    b.set_mtype(MoveType::Brownian(1.0));
    let mut rng = rng_seed(5);
    let mut v = Position::new(vec![0.0; dim]);
    match (b.random_move(&mut rng, 1.0), b.random_move_to_vec(&mut rng, 1.0, &mut v)) {
        (Ok(m), Ok(())) if m.dim() == dim => Ok(()),
        (x, y) => Err(format!("dimension: {} does not move in {} dimensions: {:?} {:?}", what, dim, x, y)),
    }
}

fn c09_history() -> R {
    let (k, a, b) = gen_kind();
    let kind = (k, a, b);
    let mut sys = gen_sys(if chance(1, 6) { 10 } else { 5 });
    let mut agents: Vec<Ag> = vec![];
    for _ in 0..1 + g(3) {
        let m = if kind.0 != 1 && chance(1, 8) { MoveType::Levy } else { brownian() };
        let at = if chance(1, 2) { None } else { Some(sys.point()) };
        agents.push(gen_agent(kind, at.as_deref(), m, sys.dim()));
    }
    sample(|| format!("{} agents like {:?} in {:?}", agents.len(), agents[0], sys));
    for _ in 0..4 + g(16) {
        yield_point();
        let i = g(agents.len() as u64) as usize;
        let mut rng = gen_rng();
        match g(10) {
            0 | 1 | 2 | 3 => {
                let t = gen_target(&sys);
                let before = agents[i].other();
                let r = agents[i].renew(sys.core(), t.core(), &mut rng);
                note(|| format!("renew {} in {:?}: {:?} {:?}", i, sys, r, agents[i].p()));
                if let Err(e) = r {
                    return Err(format!("renew: refused with {:?}: {:?}", e, agents[i]));
                }
                placed("a renewed agent", &sys, Some(&t), &agents[i].p().coordinate)?;
                moves_in("a renewed agent", &agents[i], sys.dim())?;
                if agents[i].other() != before {
                    return Err(format!("parameters: renewal changed {} to {}", before, agents[i].other()));
                }
                if let Ag::Merge(m) = &agents[i] {
                    if m.size() != 1 || m.size != 1 {
                        return Err(format!("renew: size {} after renewal", m.size));
                    }
                    if m.mtype != MoveType::Brownian(1.0) {
                        return Err(format!("renew: {:?} after renewal", m.mtype));
                    }
                }
                nontrivial();
                count("renewals");
            }
            4 | 5 => {
                let t = gen_target(&sys);
                let m = if chance(1, 8) { MoveType::Levy } else { brownian() };
                let (s, tg) = (sys.core(), t.core());
                let new = match kind.0 {
                    0 => ContPassiveIndepAgent::new_uniform(s, tg, &mut rng, m).map(Ag::Indep),
                    1 => ContPassiveMergeAgent::new_uniform(s, tg, &mut rng, m, a, b).map(Ag::Merge),
                    2 => ContPassiveExpAgent::new_uniform(s, tg, &mut rng, InteractType::Exponential(sys.dim(), a), m, b).map(Ag::Exp),
                    _ => ContPassiveLJAgent::new_uniform(s, tg, &mut rng, InteractType::LennardJones(a), m, b).map(Ag::Lj),
                };
                let new = new.map_err(|e| format!("new: refused with {:?} in {:?}", e, sys))?;
                placed("a new agent", &sys, Some(&t), &new.p().coordinate)?;
                moves_in("a new agent", &new, sys.dim())?;
                let ok = match &new {
                    Ag::Indep(x) => x.mtype == m,
                    Ag::Merge(x) => x.mtype == m && x.size == 1 && x.ptl_radius == a && x.alpha == b,
                    Ag::Exp(x) => x.mtype == m && x.gamma == a && x.strength == b,
                    Ag::Lj(x) => x.mtype == m && x.ptl_size == a && x.strength == b,
                };
                if !ok {
                    return Err(format!("parameters: of a new agent {:?}", new));
                }
                if m != MoveType::Levy || kind.0 != 1 {
                    agents[i] = new;
                }
                nontrivial();
                count("new agents");
            }
            6 => {
                // plain draws of the system
                let p = sys.core().random_pos(&mut rng).map_err(|e| format!("random_pos: {:?}", e))?;
                placed("a drawn position", &sys, None, &p.coordinate)?;
                let mut v = pos(&(0..sys.dim()).map(|_| plain_unit() * 100.0).collect::<Vec<_>>());
                sys.core().random_pos_to_vec(&mut rng, &mut v).map_err(|e| format!("random_pos_to_vec: {:?}", e))?;
                placed("a position drawn in place", &sys, None, &v.coordinate)?;
                let mut o = pos(&(0..sys.dim()).map(|_| plain_unit() * 100.0).collect::<Vec<_>>());
                let q = sys.core().position_out_of_system();
                sys.core().position_out_of_system_to_vec(&mut o).map_err(|e| format!("position_out_of_system_to_vec: {:?}", e))?;
                for x in [&q, &o] {
                    if !sys.outside(&x.coordinate) || sys.core().check_inclusion(x) != Ok(false) {
                        return Err(format!("outside: {:?} offered as outside {:?}", x.coordinate, sys));
                    }
                }
            }
            7 => {
                // another system for the next ensembles
                sys = gen_sys(5);
            }
            8 => {
                // the agent has wandered off
                for x in agents[i].p_mut().iter_mut() {
                    *x = plain_unit() * 1e3;
                }
            }
            _ => {
                // it has aggregated
                if let Ag::Merge(m) = &mut agents[i] {
                    let _ = m.add_size(1 + g(1000) as usize);
                } else if chance(1, 2) {
                    agents[i] = agents[g(agents.len() as u64) as usize].clone();
                }
            }
        }
    }
    Ok(())
}

/// The spread of positions drawn in one way; limits are 7.5 standard errors.
fn c09_spread() -> R {
    let sys = gen_sys(if chance(1, 4) { 8 } else { 4 });
    let (d, r, l) = sys.shape();
    let dim = sys.dim();
    let way = g(4);
    let n = 1500u64;
    let mut rng = rng_seed(1 + g(1 << 40) as u128);
    let far = Tg::Bulk(ContBulkTarget::new(pos(&vec![10.0 * r.max(l); dim]), 0.1 * r.max(l)));
    let mut v = Position::new(vec![0.25 * r.max(l); dim]);
    let kind = gen_kind();
    let mut agent = gen_agent(kind, None, MoveType::Brownian(1.0), dim);
    let mut cells = vec![vec![0u64; 3]; dim]; // x > 0, |x| beyond half, x*next > 0
    let mut shells = [0u64; 2];
    for k in 0..n {
        if k % 256 == 0 {
            yield_point();
        }
        let p: Vec<f64> = match way {
            0 => sys.core().random_pos(&mut rng).map_err(|e| format!("random_pos: {:?}", e))?.coordinate,
            1 => {
                sys.core().random_pos_to_vec(&mut rng, &mut v).map_err(|e| format!("random_pos_to_vec: {:?}", e))?;
                v.coordinate.clone()
            }
            2 => {
                agent.renew(sys.core(), far.core(), &mut rng).map_err(|e| format!("renew: {:?}", e))?;
                agent.p().coordinate.clone()
            }
            _ => ContPassiveIndepAgent::new_uniform(sys.core(), far.core(), &mut rng, MoveType::Brownian(1.0))
                .map_err(|e| format!("new: {:?}", e))?
                .pos
                .coordinate,
        };
        placed("a position", &sys, None, &p)?;
        for i in 0..dim {
            cells[i][0] += (p[i] > 0.0) as u64;
            cells[i][1] += (i >= d && p[i].abs() > 0.5 * l) as u64;
            cells[i][2] += (dim > 1 && p[i] * p[(i + 1) % dim] > 0.0) as u64;
        }
        if d > 0 {
            let s = norm(&p[..d]) / r;
            shells[0] += (s > 0.5f64.powf(1.0 / d as f64)) as u64;
            shells[1] += (s > 0.1f64.powf(1.0 / d as f64)) as u64;
        }
    }
    let far_off = |c: u64, q: f64| (c as f64 - n as f64 * q).abs() > 7.5 * (n as f64 * q * (1.0 - q)).sqrt();
    for i in 0..dim {
        let bad = far_off(cells[i][0], 0.5) || (i >= d && far_off(cells[i][1], 0.5)) || (dim > 1 && far_off(cells[i][2], 0.5));
        if bad {
            return Err(format!("spread: way {} in {:?}: coordinate {} counts {:?} of {}", way, sys, i, cells[i], n));
        }
    }
    if d > 0 && (far_off(shells[0], 0.5) || far_off(shells[1], 0.9)) {
        return Err(format!("spread: way {} in {:?}: radial counts {:?} of {}", way, sys, shells, n));
    }
    count("spread samples");
    nontrivial();
    Ok(())
}

pub fn c09() -> R {
    callers(3, |_| if chance(1, 12) { c09_spread() } else { c09_history() })
}

// ---- C10 -----------------------------------------------------------------------

fn close(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 8.0 * EPS * scale
}

pub fn c10() -> R {
    callers(3, |_| {
        let dim = 1 + g(6) as usize;
        let kind = gen_kind();
        let at: Vec<f64> = (0..dim).map(|_| plain_unit()).collect();
        let m = if chance(1, 8) { MoveType::Levy } else { brownian() };
        let mut agent = gen_agent(kind, Some(&at), m, dim);
        let mut rng = gen_rng();
        sample(|| format!("{:?}", agent));
        for _ in 0..5 + g(25) {
            yield_point();
            let dt = match g(5) {
                0 => 0.0,
                1 => 1.0,
                2 => (1 + g(1000)) as f64 * 1e-3,
                3 => pick(&[1e-10, 1e-5, 1e5, 0.1]),
                _ => 1e-3,
            };
            let d = match agent.mtype() {
                MoveType::Brownian(d) => Some(d),
                _ => None,
            };
            let old = rng.clone();
            let mut model = rng.clone();
            match g(12) {
                0 | 1 | 2 => {
                    let out = agent.random_move(&mut rng, dt);
                    match (out, d) {
                        (Ok(v), Some(d)) => {
                            let len = (2.0 * d * dt).sqrt();
                            let z: Vec<f64> = (0..dim).map(|_| model.sample(StandardNormal)).collect();
                            if v.dim() != dim || !v.coordinate.iter().zip(&z).all(|(a, z)| close(*a, z * len, (z * len).abs())) {
                                return Err(format!("move: {:?} dt {} gave {:?} for normals {:?}", agent, dt, v.coordinate, z));
                            }
                            if !same_state(&rng, &model) {
                                return Err("generator: advanced unequally by random_move".into());
                            }
                            nontrivial();
                        }
                        (Err(_), None) => {
                            if !same_state(&rng, &old) {
                                return Err("refused: random_move advanced the generator".into());
                            }
                        }
                        (o, _) => return Err(format!("move: {:?} by {:?}", o, agent)),
                    }
                }
                3 | 4 | 5 => {
                    let wrong = chance(1, 6);
                    let vd = if wrong { (dim + 1 + g(3) as usize) % (dim + 3) } else { dim };
                    let vd = if wrong && vd == dim { dim + 1 } else { vd };
                    let start: Vec<f64> = (0..vd).map(|_| if chance(1, 4) { 0.0 } else { plain_unit() * pick(&[1.0, 1e-6, 1e3]) }).collect();
                    let mut v = pos(&start);
                    let out = agent.random_move_to_vec(&mut rng, dt, &mut v);
                    match (out, d) {
                        (Ok(()), Some(d)) if !wrong => {
                            let len = (2.0 * d * dt).sqrt();
                            let z: Vec<f64> = (0..dim).map(|_| model.sample(StandardNormal)).collect();
                            let ok = v.dim() == dim
                                && (0..dim).all(|i| close(v[i], start[i] + z[i] * len, start[i].abs() + (z[i] * len).abs()));
                            if !ok {
                                return Err(format!("move: {:?} dt {} added to {:?} gave {:?} for normals {:?}", agent, dt, start, v.coordinate, z));
                            }
                            if !same_state(&rng, &model) {
                                return Err("generator: advanced unequally by random_move_to_vec".into());
                            }
                            nontrivial();
                        }
                        (Err(_), d) if wrong || d.is_none() => {
                            count("refused moves");
                            if v.coordinate != start || !same_state(&rng, &old) {
                                return Err(format!("refused: random_move_to_vec changed {:?} to {:?} or the generator", start, v.coordinate));
                            }
                        }
                        (o, _) => return Err(format!("move: {:?} with a vector of dimension {} by {:?}", o, vd, agent)),
                    }
                }
                6 => {
                    let a = rm::get_uniform(&mut rng);
                    let b = rm::get_gaussian(&mut rng);
                    let (x, y): (f64, f64) = (model.sample(Open01), model.sample(StandardNormal));
                    if a != x || b != y || !same_state(&rng, &model) {
                        return Err(format!("helper: get_uniform {} get_gaussian {}, stream has {} {}", a, b, x, y));
                    }
                }
                7 => {
                    let n = g(7) as usize;
                    let a = rm::get_uniform_vec(&mut rng, n);
                    let b = rm::get_gaussian_vec(&mut rng, n);
                    let x: Vec<f64> = (0..n).map(|_| model.sample(Open01)).collect();
                    let y: Vec<f64> = (0..n).map(|_| model.sample(StandardNormal)).collect();
                    if a.coordinate != x || b.coordinate != y || !same_state(&rng, &model) {
                        return Err(format!("helper: vectors {:?} {:?}, stream has {:?} {:?}", a, b, x, y));
                    }
                }
                8 => {
                    let n = g(7) as usize;
                    let start: Vec<f64> = (0..n).map(|_| plain_unit() * 50.0).collect();
                    let (mut a, mut b) = (pos(&start), pos(&start));
                    rm::get_uniform_to_vec(&mut rng, &mut a);
                    rm::get_gaussian_to_vec(&mut rng, &mut b);
                    let x: Vec<f64> = (0..n).map(|_| model.sample(Open01)).collect();
                    let y: Vec<f64> = (0..n).map(|_| model.sample(StandardNormal)).collect();
                    if a.coordinate != x || b.coordinate != y || !same_state(&rng, &model) {
                        return Err(format!("helper: overwrote with {:?} {:?}, stream has {:?} {:?}", a, b, x, y));
                    }
                }
                9 => {
                    let n = g(7) as usize;
                    let start: Vec<f64> = (0..n).map(|_| plain_unit() * 50.0).collect();
                    let (mut a, mut b) = (pos(&start), pos(&start));
                    let (lo, hi) = (plain_unit() * 10.0, 10.0 + g(100) as f64);
                    let (mean, sd) = (plain_unit() * 10.0, g(1000) as f64 * 1e-2);
                    rm::get_uniform_to_vec_nonstandard(&mut rng, &mut a, lo, hi);
                    rm::get_gaussian_to_vec_nonstandard(&mut rng, &mut b, mean, sd);
                    let x: Vec<f64> = (0..n).map(|_| model.sample(Open01)).collect();
                    let y: Vec<f64> = (0..n).map(|_| model.sample(StandardNormal)).collect();
                    for i in 0..n {
                        let (wa, wb) = (start[i] + x[i] * (hi - lo) + lo, start[i] + y[i] * sd + mean);
                        let (sa, sb) = (start[i].abs() + hi + 2.0 * lo.abs(), start[i].abs() + (y[i] * sd).abs() + mean.abs());
                        if a.dim() != n || b.dim() != n || !close(a[i], wa, sa) || !close(b[i], wb, sb) {
                            return Err(format!("helper: added {:?} ({} to {}) and {:?} ({} {}) to {:?}, stream has {:?} {:?}", a, lo, hi, b, mean, sd, start, x, y));
                        }
                    }
                    if !same_state(&rng, &model) {
                        return Err("generator: advanced unequally by the adding helpers".into());
                    }
                }
                10 => rng = gen_rng(),
                _ => {
                    // the agent's state changes between moves
                    match &mut agent {
                        Ag::Merge(a) if d.is_some() => {
                            let _ = a.add_size(1 + g(5) as usize);
                        }
                        a => {
                            let m = if chance(1, 6) { MoveType::Levy } else { brownian() };
                            a.set_mtype(m);
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

// ---- C13 -----------------------------------------------------------------------

fn live_order<T>(l: &mut LinkedList<T>) -> Vec<usize> {
    let mut v = vec![];
    l.into_iter();
    while let Some(i) = l.indicies() {
        v.push(i);
        if v.len() > 10_000 {
            break;
        }
    }
    v
}

pub fn c13() -> R {
    callers(3, |_| {
        let dim = 1 + g(3) as usize;
        let sys = gen_sys(3);
        let alpha = pick(&[1.0, 0.0, 0.5, 2.0, -0.5, 1.0 / 3.0]);
        let levy = chance(1, 10);
        let n = match g(150) {
            149 => 100 + g(300),
            145..=148 => 10 + g(40),
            _ => g(9),
        } as usize;
        let kind = (1, 0.1, alpha);
        let make = || {
            let at: Vec<f64> = (0..dim).map(|_| plain_unit()).collect();
            let m = if levy { MoveType::Levy } else { brownian() };
            match gen_agent(kind, Some(&at), m, dim) {
                Ag::Merge(a) => a,
                _ => unreachable!(),
            }
        };
        let first: Vec<ContPassiveMergeAgent> = (0..n).map(|_| make()).collect();
        // model: size, coefficient is fixed by the size, live
        let mut size: Vec<u64> = vec![1; n];
        let mut coeff: Vec<Option<f64>> = first.iter().map(|a| if let MoveType::Brownian(d) = a.mtype { Some(d) } else { None }).collect();
        let mut order: Vec<usize> = (0..n).collect();
        let mut list = if chance(1, 3) {
            let mut l = LinkedList::new();
            first.into_iter().for_each(|a| l.push(a));
            l
        } else {
            LinkedList::from(first)
        };
        let formula = |s: u64| (s as f64).powf(-alpha);
        sample(|| format!("{} agents, alpha {}, levy {}", n, alpha, levy));
        for _ in 0..5 + g(30) {
            yield_point();
            let len = size.len() as u64;
            let idx = || -> usize {
                if !order.is_empty() && chance(3, 4) { order[g(order.len() as u64) as usize] } else { g(len + 2) as usize }
            };
            match g(14) {
                0..=6 => {
                    let (i, j) = if chance(1, 10) {
                        let i = idx();
                        (i, i)
                    } else {
                        (idx(), idx())
                    };
                    let allowed = !levy && i != j && order.contains(&i) && order.contains(&j);
                    let r = list.merge(i, j);
                    note(|| format!("merge {} {}: {:?}", i, j, r));
                    if r.is_ok() != allowed {
                        return Err(format!("merge: of {} and {} with live {:?} gave {:?}", i, j, order, r));
                    }
                    if allowed {
                        size[i] += size[j];
                        coeff[i] = Some(formula(size[i]));
                        order.retain(|x| *x != j);
                        count("merges");
                        nontrivial();
                    } else {
                        count("refused merges");
                    }
                }
                7 => {
                    let i = idx();
                    let allowed = order.contains(&i);
                    let r = list.del(i);
                    if r.is_ok() != allowed {
                        return Err(format!("del: of {} with live {:?} gave {:?}", i, order, r));
                    }
                    order.retain(|x| *x != i);
                }
                8 => {
                    // the next ensemble: every agent renewed, list reconnected
                    if levy {
                        continue;
                    }
                    let far = ContBulkTarget::new(pos(&vec![1e9; sys.dim()]), 1.0);
                    let mut rng = gen_rng();
                    let all = chance(1, 2);
                    for (i, a) in list.contents.iter_mut().enumerate() {
                        if all || (order.contains(&i) && chance(1, 2)) {
                            a.renew_uniform(sys.core(), &far, &mut rng).map_err(|e| format!("renew: {:?}", e))?;
                            size[i] = 1;
                            coeff[i] = Some(1.0);
                        }
                    }
                    if all {
                        list.connect_all().map_err(|e| format!("connect: {:?}", e))?;
                        order = (0..size.len()).collect();
                    }
                    count("renewals");
                }
                9 => {
                    list.connect_all().map_err(|e| format!("connect: {:?}", e))?;
                    order = (0..size.len()).collect();
                }
                10 => {
                    let mut a = make();
                    let mut s = 1;
                    let mut c = if let MoveType::Brownian(d) = a.mtype { Some(d) } else { None };
                    if chance(1, 2) {
                        let k = if chance(1, 3) { g(1 << (4 + g(37))) as usize } else { g(1000) as usize };
                        if a.add_size(k).is_ok() == levy {
                            return Err(format!("add_size: {} to {:?}", k, a));
                        }
                        if !levy {
                            s += k as u64;
                            c = Some(formula(s));
                        }
                    }
                    list.push(a);
                    order.push(size.len());
                    size.push(s);
                    coeff.push(c);
                }
                11 if !size.is_empty() => {
                    // one agent absorbs another that is not in the list
                    let i = g(len) as usize;
                    let mut other = make();
                    let k = if chance(1, 8) { g(1 << (4 + g(37))) as usize } else { g(20) as usize };
                    let _ = other.add_size(k);
                    let s = other.size();
                    let before = other.clone();
                    let r = list.contents[i].merge(&other);
                    if r.is_ok() == levy || other != before {
                        return Err(format!("merge: direct {:?}, other {:?}", r, other));
                    }
                    if !levy {
                        size[i] += s as u64;
                        coeff[i] = Some(formula(size[i]));
                    }
                }
                12 => {
                    // merging in another order ends in the same agent
                    if levy || order.len() < 2 {
                        continue;
                    }
                    let mut perm = order.clone();
                    shuffle(&mut perm);
                    let mut l2 = crate::md::copy_list(&list);
                    for j in &perm[1..] {
                        l2.merge(perm[0], *j).map_err(|e| format!("merge: {:?}", e))?;
                    }
                    let total: u64 = order.iter().map(|i| size[*i]).sum();
                    let a = &l2.contents[perm[0]];
                    let c = if let MoveType::Brownian(c) = a.mtype { c } else { f64::NAN };
                    if a.size() as u64 != total || !((c - formula(total)).abs() <= 1e-12 * formula(total)) {
                        return Err(format!("order: merging all in order {:?} gave size {} coefficient {}, total {}", perm, a.size(), c, total));
                    }
                }
                _ => {
                    let live = live_order(&mut list);
                    if live != order {
                        return Err(format!("membership: live {:?}, expected {:?}", live, order));
                    }
                }
            }
            for (i, a) in list.contents.iter().enumerate() {
                if a.size() as u64 != size[i] || a.size as u64 != size[i] {
                    return Err(format!("size: agent {} has {}, expected {}", i, a.size(), size[i]));
                }
                let c = if let MoveType::Brownian(c) = a.mtype { Some(c) } else { None };
                let ok = match (c, coeff[i]) {
                    (Some(c), Some(w)) => (c - w).abs() <= 1e-12 * w,
                    (None, None) => true,
                    _ => false,
                };
                if !ok {
                    return Err(format!("coefficient: agent {} of size {} has {:?}, expected {:?}", i, size[i], a.mtype, coeff[i]));
                }
                if a.alpha != alpha || a.ptl_radius != 0.1 {
                    return Err(format!("parameters: agent {} {:?}", i, a));
                }
            }
        }
        let live = live_order(&mut list);
        if live != order {
            return Err(format!("membership: live {:?}, expected {:?}", live, order));
        }
        Ok(())
    })
}

// ---- C15 -----------------------------------------------------------------------

pub trait Pairwise: AgentCore<f64> + Interaction<f64, f64> + Clone + std::fmt::Debug {
    fn place(&mut self) -> &mut Position<f64>;
    fn again(&mut self, sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error>;
}
impl Pairwise for ContPassiveExpAgent {
    fn place(&mut self) -> &mut Position<f64> {
        &mut self.pos
    }
    fn again(&mut self, sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error> {
        self.renew_uniform(sys, t, rng)
    }
}
impl Pairwise for ContPassiveLJAgent {
    fn place(&mut self) -> &mut Position<f64> {
        &mut self.pos
    }
    fn again(&mut self, sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error> {
        self.renew_uniform(sys, t, rng)
    }
}

fn displacement<A: AgentCore<f64> + std::fmt::Debug>(a: &A, b: &A) -> R {
    let (p, q) = (&a.pos().coordinate, &b.pos().coordinate);
    let d: Vec<f64> = q.iter().zip(p).map(|(y, x)| y - x).collect();
    let dist = norm(&d);
    if !(dist > 1e-100) || !dist.is_finite() {
        return Ok(());
    }
    let dim = p.len();
    let (u, r) = a.mutual_displacement(b).map_err(|e| format!("displacement: {:?}", e))?;
    let mut v = Position::new((0..dim).map(|_| plain_unit() * 7.0).collect());
    let s = a.mutual_displacement_to_vec(b, &mut v).map_err(|e| format!("displacement: in place {:?}", e))?;
    let (w, t) = b.mutual_displacement(a).map_err(|e| format!("displacement: swapped {:?}", e))?;
    let m = a.mutual_distance(b).map_err(|e| format!("distance: {:?}", e))?;
    let k = a.pos().distance(b.pos()).map_err(|e| format!("distance: {:?}", e))?;
    for (name, x) in [("value form", r), ("in-place form", s), ("swapped", t), ("mutual_distance", m), ("distance", k)] {
        if !close(x, dist, dist) {
            return Err(format!("distance: {} gives {} for {:?} and {:?}", name, x, p, q));
        }
    }
    for i in 0..dim {
        let want = d[i] / dist;
        for (name, x) in [("value form", u[i]), ("in-place form", v[i]), ("swapped", -w[i])] {
            if !close(x, want, 1.0) {
                return Err(format!("displacement: {} component {} is {} for {:?} and {:?}", name, i, x, p, q));
            }
        }
    }
    if u.dim() != dim || v.dim() != dim || w.dim() != dim {
        return Err("displacement: dimension".into());
    }
    if chance(1, 20) {
        let mut v = Position::new(vec![0.5; if dim > 1 && chance(1, 2) { dim - 1 } else { dim + 1 }]);
        if let Ok(r) = a.mutual_displacement_to_vec(b, &mut v) {
            return Err(format!("displacement: of dimension {} written to {:?}, distance {}", dim, v, r));
        }
        count("dimensions refused");
    }
    Ok(())
}

fn sweep_history<A: Pairwise>(sys: &Sys, make: impl Fn(Option<&[f64]>) -> A, force: impl Fn(f64) -> (f64, f64)) -> R {
    let dim = sys.dim();
    let n = match g(600) {
        599 => 40 + g(260),
        586..=598 => 8 + g(20),
        _ => g(8),
    } as usize;
    let first: Vec<A> = (0..n).map(|_| make(Some(&sys.point()))).collect();
    let mut list = LinkedList::from(first);
    let mut order: Vec<usize> = (0..n).collect();
    sample(|| format!("{} agents in {:?}", n, sys));
    let mut moves: LinkedList<Position<f64>> = LinkedList::from(vec![Position::new(vec![0.0; dim]); n]);
    for _ in 0..4 + g(16) {
        yield_point();
        let len = list.contents.len() as u64;
        match g(9) {
            0 | 1 | 2 | 3 => {
                // a force sweep, the way a simulation loop does it
                let dt = pick(&[1.0, 1e-3, 1e-5]);
                for m in &mut moves.contents {
                    m.iter_mut().for_each(|x| *x = 0.0);
                }
                let mark = 123.456;
                for i in 0..len as usize {
                    if !order.contains(&i) {
                        moves.contents[i].iter_mut().for_each(|x| *x = mark);
                    }
                }
                let mut disp = Position::new(vec![0.0; dim]);
                let mut tot = vec![0.0; dim];
                let mut seen = 0usize;
                list.into_double_iter();
                let variant = g(2);
                loop {
                    let (i, j) = if variant == 0 {
                        match list.enumerate_double() {
                            None => break,
                            Some((i, a, j, b)) => {
                                let r = a.mutual_displacement_to_vec(b, &mut disp).map_err(|e| format!("sweep: {:?}", e))?;
                                disp.mut_scalar_mul(a.force(r) * dt);
                                (i, j)
                            }
                        }
                    } else {
                        match list.indicies_double() {
                            None => break,
                            Some((i, j)) => {
                                let (u, r) = list.contents[i].mutual_displacement(&list.contents[j]).map_err(|e| format!("sweep: {:?}", e))?;
                                disp = u.scalar_mul(list.contents[i].force(r) * dt);
                                (i, j)
                            }
                        }
                    };
                    moves.contents[i].mut_sub(&disp);
                    moves.contents[j].mut_add(&disp);
                    if chance(1, 16) {
                        yield_point();
                    }
                    seen += 1;
                    if seen > 100_000 {
                        return Err("sweep: never ends".into());
                    }
                }
                let mut mag = 0.0;
                for &i in &order {
                    let mut want = vec![0.0; dim];
                    let mut abs = 1e-300;
                    let mut sure = true;
                    for &j in &order {
                        if i == j {
                            continue;
                        }
                        let (p, q) = (&list.contents[i].pos().coordinate, &list.contents[j].pos().coordinate);
                        let d: Vec<f64> = q.iter().zip(p.iter()).map(|(y, x)| y - x).collect();
                        let r = norm(&d);
                        let (f, scale) = force(r);
                        let f = f * dt;
                        if !(r > 0.0) || !scale.is_finite() {
                            sure = false;
                            continue;
                        }
                        abs += scale.abs() * dt;
                        for k in 0..dim {
                            want[k] -= f * d[k] / r;
                        }
                    }
                    if !sure {
                        mag = f64::NAN;
                        continue;
                    }
                    mag += abs;
                    for k in 0..dim {
                        tot[k] += moves.contents[i][k];
                        if !((moves.contents[i][k] - want[k]).abs() <= 1e-10 * abs) {
                            return Err(format!("sweep: agent {} of live {:?} gets {:?}, all-pairs sum {:?}", i, order, moves.contents[i].coordinate, want));
                        }
                    }
                }
                if mag.is_finite() && !tot.iter().all(|x| x.abs() <= 1e-10 * mag) {
                    return Err(format!("momentum: total {:?} of magnitude {}", tot, mag));
                }
                for i in 0..len as usize {
                    if !order.contains(&i) && moves.contents[i].iter().any(|x| *x != mark) {
                        return Err(format!("sweep: touched the entry of removed agent {}", i));
                    }
                }
                if order.len() > 1 {
                    nontrivial();
                    count("force sweeps");
                }
            }
            4 => {
                // everyone moves
                for &i in &order {
                    let p = list.contents[i].place();
                    let mut dp = pos(&(0..dim).map(|_| plain_unit() * 0.1 * sys.shape().1.max(sys.shape().2)).collect::<Vec<_>>());
                    let old = p.clone();
                    if sys.core().check_bc(p, &mut dp).is_err() {
                        *p = old;
                    }
                }
            }
            5 => {
                let i = g(len + 1) as usize;
                let ok = list.del(i).is_ok();
                if ok != order.contains(&i) {
                    return Err(format!("del: of {} with live {:?}", i, order));
                }
                order.retain(|x| *x != i);
            }
            6 => {
                let all = chance(1, 2);
                let far = ContBulkTarget::new(pos(&vec![1e9; dim]), 1.0);
                let mut rng = gen_rng();
                for a in &mut list.contents {
                    if all || chance(1, 2) {
                        a.again(sys.core(), &far, &mut rng).map_err(|e| format!("renew: {:?}", e))?;
                    }
                }
                if all || chance(1, 2) {
                    list.connect_all().map_err(|e| format!("connect: {:?}", e))?;
                    order = (0..len as usize).collect();
                }
            }
            7 => {
                let a = make(Some(&sys.point()));
                list.push(a);
                moves.push(Position::new(vec![0.0; dim]));
                order.push(len as usize);
            }
            _ => {
                if len > 1 {
                    let (i, j) = (g(len) as usize, g(len) as usize);
                    if i != j {
                        displacement(&list.contents[i], &list.contents[j])?;
                        count("displacements");
                        nontrivial();
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c15() -> R {
    callers(3, |_| {
        let sys = loop {
            let s = gen_sys(4);
            let (d, r, l) = s.shape();
            if (d == 0 || (r > 0.05 && r < 200.0)) && (d == s.dim() || (l > 0.05 && l < 200.0)) {
                break s;
            }
        };
        let dim = sys.dim();
        let (k, a, b) = gen_kind();
        if k == 0 || (k == 1 && chance(1, 2)) {
            // non-interacting kinds: displacements only
            for _ in 0..6 {
                yield_point();
                let (p, q) = (sys.point(), sys.point());
                let scale = pick(&[1.0, 1.0, 1e-20, 1e20]);
                let p: Vec<f64> = p.iter().map(|x| x * scale).collect();
                let q: Vec<f64> = q.iter().map(|x| x * scale).collect();
                match (gen_agent((k, a, b), Some(&p), MoveType::Brownian(1.0), dim), gen_agent((k, a, b), Some(&q), MoveType::Brownian(1.0), dim)) {
                    (Ag::Indep(x), Ag::Indep(y)) => displacement(&x, &y)?,
                    (Ag::Merge(x), Ag::Merge(y)) => displacement(&x, &y)?,
                    _ => {}
                }
                count("displacements");
                nontrivial();
            }
            return Ok(());
        }
        if k == 3 {
            let size = a * pick(&[1.0, 0.1]);
            let make = |p: Option<&[f64]>| match gen_agent((3, size, b), p, MoveType::Brownian(1.0), dim) {
                Ag::Lj(x) => x,
                _ => unreachable!(),
            };
            sweep_history(&sys, make, |r| {
                let x = size / r;
                let c = 24.0 * b / size;
                (c * (2.0 * x.powi(13) - x.powi(7)), c * (2.0 * x.powi(13) + x.powi(7)))
            })
        } else {
            let make = |p: Option<&[f64]>| match gen_agent((2, a, b), p, MoveType::Brownian(1.0), dim) {
                Ag::Exp(x) => x,
                _ => unreachable!(),
            };
            sweep_history(&sys, make, |r| {
                let f = b / a * (-r / a).exp();
                (f, f)
            })
        }
    })
}
