//! What the harness knows about a simulation program: its arguments, their
//! values and texts, and which of them identify a configuration.
use crate::sim::*;
use moledyn::prelude::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
    ContCircSystem,
    ContCubicSystem,
    ContCylindricalSystem,
    ContBulkTarget,
    ContPassiveIndepAgent,
    ContPassiveMergeAgent,
    ContPassiveExpAgent,
    ContPassiveLJAgent,
    ConstStep,
    ExponentialStep,
    VariableSimulation,
    ParVariableSimulation,
    ProcessSimulation,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum An {
    TimeAnalysis,
    TimeVecAnalysis,
    ProcessAnalysis,
}
pub struct Prog {
    pub name: &'static str,
    pub prefix: &'static str,
    pub parts: [Part; 5],
    pub an: An,
    pub skip: usize,
    /// arguments come from a caller's vector instead of the process
    pub fixed: bool,
    /// the simulation parameters only distinguish files
    pub grouped: bool,
    pub ds: &'static [&'static str],
    pub sim_ds: &'static [&'static str],
    pub run: fn() -> Result<(), Error>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    F(f64),
    U(usize),
    W(u128),
    T(String),
    Move(Option<f64>),
    Init(Option<Vec<f64>>),
    Pos(Vec<f64>),
    Bc(BoundaryCond),
    Cyl(usize),
}

pub fn fields(p: Part) -> &'static [&'static str] {
    match p {
        Part::ContCircSystem => &["sys_size", "dim"],
        Part::ContCubicSystem => &["bctype", "sys_size", "dim"],
        Part::ContCylindricalSystem => &["sys_type", "bctype", "sys_radius", "sys_length", "dim"],
        Part::ContBulkTarget => &["target_pos", "target_size"],
        Part::ContPassiveIndepAgent => &["mtype", "itype", "num_agent"],
        Part::ContPassiveMergeAgent => &["mtype", "itype", "ptl_radius", "alpha", "num_agent"],
        Part::ContPassiveExpAgent => &["mtype", "itype", "gamma", "exp_dim", "strength", "num_agent"],
        Part::ContPassiveLJAgent => &["mtype", "itype", "ptl_size", "strength", "num_agent"],
        Part::ConstStep => &["dt", "tmax"],
        Part::ExponentialStep => &["dt_min", "dt_max", "length", "tmax"],
        Part::VariableSimulation => &["num_ensemble", "idx_set", "seed", "output_dir"],
        Part::ParVariableSimulation => &["num_ensemble", "seed", "n_thrd", "output_dir"],
        Part::ProcessSimulation => &["num_ensemble", "period", "idx_set", "seed", "output_dir"],
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Config {
    pub vals: Vec<(&'static str, V)>,
}

impl V {
    pub fn debug(&self) -> String {
        match self {
            V::F(x) => format!("{:?}", x),
            V::U(x) => format!("{:?}", x),
            V::W(x) => format!("{:?}", x),
            V::T(x) => format!("{:?}", x),
            V::Move(m) => format!("{:?}", mv(m)),
            V::Init(i) => format!("{:?}", init(i)),
            V::Pos(p) => format!("{:?}", Position::new(p.clone())),
            V::Bc(b) => format!("{:?}", b),
            V::Cyl(d) => format!("{:?}", SystemType::ContinuousCylindrical(*d)),
        }
    }
    /// value as it distinguishes configurations
    pub fn canon(&self) -> String {
        match self {
            V::F(x) => format!("{:?}", x),
            v => v.debug(),
        }
    }
    /// one of several command-line spellings
    pub fn text(&self, style: u64) -> String {
        match self {
            V::F(x) => ftext(*x, style),
            V::U(x) => utext(*x as u128, style),
            V::W(x) => utext(*x, style),
            V::T(s) => s.clone(),
            V::Move(None) => ["Levy", "Levy walk"][(style % 2) as usize].into(),
            V::Move(Some(c)) => match style % 4 {
                3 => format!("Brownian with diffusion coefficient {}", c),
                s => ftext(*c, s),
            },
            V::Init(None) => "Uniform".into(),
            V::Init(Some(p)) | V::Pos(p) => {
                let sep = if style % 2 == 0 { ":" } else { "," };
                let v: Vec<String> = p.iter().map(|x| ftext(*x, style / 2 % 3)).collect();
                v.join(sep)
            }
            V::Bc(BoundaryCond::Reflection) => "Reflective".into(),
            V::Bc(BoundaryCond::Periodic) => "Periodic".into(),
            V::Bc(BoundaryCond::Mixed(d)) => d.to_string(),
            V::Cyl(d) => d.to_string(),
        }
    }
}
fn ftext(x: f64, style: u64) -> String {
    match style % 5 {
        0 => format!("{}", x),
        1 => format!("{:e}", x),
        2 => format!("{:?}", x),
        3 => format!(" {} ", x),
        _ => format!("{:E}", x),
    }
}
fn utext(x: u128, style: u64) -> String {
    match style % 4 {
        0 | 1 => format!("{}", x),
        2 => format!("0{}", x),
        _ => format!(" {}", x),
    }
}
pub fn mv(m: &Option<f64>) -> MoveType {
    match m {
        Some(c) => MoveType::Brownian(*c),
        None => MoveType::Levy,
    }
}
pub fn init(i: &Option<Vec<f64>>) -> InitType<f64> {
    match i {
        None => InitType::Uniform,
        Some(p) => InitType::SpecificPosition(Position::new(p.clone())),
    }
}

impl Config {
    pub fn get(&self, n: &str) -> &V {
        &self.vals.iter().find(|v| v.0 == n).unwrap_or_else(|| panic!("no field {}", n)).1
    }
    pub fn set(&mut self, n: &str, v: V) {
        self.vals.iter_mut().find(|v| v.0 == n).unwrap_or_else(|| panic!("no field {}", n)).1 = v;
    }
    pub fn has(&self, n: &str) -> bool {
        self.vals.iter().any(|v| v.0 == n)
    }
    pub fn f(&self, n: &str) -> f64 {
        match self.get(n) {
            V::F(x) => *x,
            v => panic!("{} is {:?}", n, v),
        }
    }
    pub fn u(&self, n: &str) -> usize {
        match self.get(n) {
            V::U(x) => *x,
            v => panic!("{} is {:?}", n, v),
        }
    }
    pub fn dir(&self) -> String {
        match self.get("output_dir") {
            V::T(x) => x.clone(),
            v => panic!("{:?}", v),
        }
    }
    /// what identifies the configuration in an analysis
    pub fn key(&self, p: &Prog) -> Vec<String> {
        p.ds.iter().map(|f| self.get(f).canon()).collect()
    }
    /// what distinguishes result files
    pub fn file_key(&self, p: &Prog) -> Vec<String> {
        let mut k = self.key(p);
        k.extend(p.sim_ds.iter().map(|f| self.get(f).canon()));
        k
    }
    /// full argument vector of the process, program name included
    pub fn args(&self, p: &Prog, style: u64) -> Vec<String> {
        let mut st = style;
        let mut a = lead(p);
        for (_, v) in &self.vals {
            a.push(v.text(st % 16));
            st = st.rotate_right(4);
        }
        a
    }
    /// Debug text of the argument structures the command line stands for
    pub fn expected_parts(&self, p: &Prog) -> Vec<String> {
        let f = |n: &str| self.f(n);
        let u = |n: &str| self.u(n);
        let m = || match self.get("mtype") {
            V::Move(m) => mv(m),
            _ => unreachable!(),
        };
        let i = || match self.get("itype") {
            V::Init(i) => init(i),
            _ => unreachable!(),
        };
        let pos = || match self.get("target_pos") {
            V::Pos(q) => Position::new(q.clone()),
            _ => unreachable!(),
        };
        let bc = || match self.get("bctype") {
            V::Bc(b) => *b,
            _ => unreachable!(),
        };
        let st = || match self.get("sys_type") {
            V::Cyl(d) => SystemType::ContinuousCylindrical(*d),
            _ => unreachable!(),
        };
        let seed = || match self.get("seed") {
            V::W(s) => *s,
            _ => unreachable!(),
        };
        p.parts
            .iter()
            .map(|part| match part {
                Part::ContCircSystem => format!("{:?}", ContCircSystemArguments::new(f("sys_size"), u("dim"))),
                Part::ContCubicSystem => format!("{:?}", ContCubicSystemArguments::new(bc(), f("sys_size"), u("dim"))),
                Part::ContCylindricalSystem => format!(
                    "{:?}",
                    ContCylindricalSystemArguments::new(st(), bc(), f("sys_radius"), f("sys_length"), u("dim"))
                ),
                Part::ContBulkTarget => format!("{:?}", ContBulkTargetArguments::new(pos(), f("target_size"))),
                Part::ContPassiveIndepAgent => format!("{:?}", ContPassiveIndepAgentArguments::new(m(), i(), u("num_agent"))),
                Part::ContPassiveMergeAgent => format!(
                    "{:?}",
                    ContPassiveMergeAgentArguments::new(m(), i(), f("ptl_radius"), f("alpha"), u("num_agent"))
                ),
                Part::ContPassiveExpAgent => format!(
                    "{:?}",
                    ContPassiveExpAgentArguments::new(m(), i(), f("gamma"), u("exp_dim"), f("strength"), u("num_agent"))
                ),
                Part::ContPassiveLJAgent => format!(
                    "{:?}",
                    ContPassiveLJAgentArguments::new(m(), i(), f("ptl_size"), f("strength"), u("num_agent"))
                ),
                Part::ConstStep => format!("{:?}", ConstStepArguments::new(f("dt"), f("tmax"))),
                Part::ExponentialStep => format!(
                    "{:?}",
                    ExponentialStepArguments::new(f("dt_min"), f("dt_max"), u("length"), f("tmax"))
                ),
                Part::VariableSimulation => format!(
                    "{:?}",
                    VariableSimulationArguments::new(u("num_ensemble"), u("idx_set"), seed(), self.dir())
                ),
                Part::ParVariableSimulation => format!(
                    "{:?}",
                    ParVariableSimulationArguments::new(u("num_ensemble"), seed(), u("n_thrd"), self.dir())
                ),
                Part::ProcessSimulation => format!(
                    "{:?}",
                    ProcessSimulationArguments::new(u("num_ensemble"), f("period"), u("idx_set"), seed(), self.dir())
                ),
            })
            .collect()
    }
}

/// What stands before the first argument proper.
pub fn lead(p: &Prog) -> Vec<String> {
    (0..p.skip).map(|i| if i == 0 { format!("/bin/{}", p.name) } else { "mode".into() }).collect()
}

// ---- generation -------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Taste {
    /// anything the argument types can hold and the set-up accepts
    Wild,
    /// parameters of a simulation that can actually be run
    Mild,
}

pub fn gen_f(wild: bool) -> f64 {
    let nice = [1.0, 10.0, 0.1, 2.5, 0.3, 1e-3, 5.0, 100.0, 0.5, 7.0];
    if !wild || chance(1, 2) {
        return pick(&nice);
    }
    match g(8) {
        0 => f64::MAX,
        1 => 5e-324,
        2 => 1.0 / 3.0,
        3 => 9007199254740993.0,
        4 => 1e-300 * (1 + g(1000)) as f64,
        5 => f64::from_bits(0x3ff0_0000_0000_0000 + g(1 << 20)),
        6 => f64::from_bits((g(2046) + 1) << 52 | g(1 << 52)),
        _ => (1 + g(1_000_000)) as f64 * 1e-7,
    }
}
fn gen_pos(dim: usize, wild: bool) -> Vec<f64> {
    (0..dim)
        .map(|_| {
            if chance(1, 3) {
                0.0
            } else {
                let x = gen_f(wild);
                if chance(1, 3) { -x } else { x }
            }
        })
        .collect()
}
pub fn gen_dir() -> String {
    let odd = ["run#3", "a\tb", "k=v", "it's", "\"q\"", "a,b;c", "(1,2)", "100%", "~", "-out", "a\\b", "$HOME", "*", "null", "0", "1e5", "a::b", ":a", "a:", "été/naïve"];
    let long = format!("long/{}", "d".repeat(120));
    let base = if chance(1, 12) { pick(&odd) } else if chance(1, 60) { &long } else { pick(&["out", "data/run1", "/simfs/data", "a:b", "x: y/z", "dir with space", "../up", "결과", "./o", "p:q:r/s", "{}%s", "==== DATA"]) };
    // other ways to write the same directory
    match g(6) {
        0 => format!("{}/", base),
        1 => format!("{}{}", base, pick(&["//", "/.", "/./", "/../"])) + vfs::base(base),
        2 => format!("{}{}", if base.starts_with('/') { "/" } else { ".//" }, base),
        _ => base.to_string(),
    }
}
pub fn gen_config(p: &Prog, taste: Taste) -> Config {
    let wild = taste == Taste::Wild;
    let mut c = Config { vals: vec![] };
    let dim = if wild && chance(1, 6) { 1 + g(40) as usize } else { 1 + g(3) as usize };
    let num_agent = if wild && chance(1, 6) { g(40) as usize } else { 1 + g(4) as usize };
    let sysf = |wild| if wild { gen_f(true) } else { pick(&[1.0, 2.0, 5.0, 10.0, 3.5]) };
    for part in &p.parts {
        for n in fields(*part) {
            let v = match *n {
                "sys_size" | "sys_radius" | "sys_length" => V::F(sysf(wild)),
                "dim" => V::U(dim),
                "bctype" => match part {
                    Part::ContCylindricalSystem => V::Bc(BoundaryCond::Mixed(1)),
                    _ => match g(3) {
                        0 => V::Bc(BoundaryCond::Reflection),
                        1 => V::Bc(BoundaryCond::Periodic),
                        _ => V::Bc(BoundaryCond::Mixed(1 + g(dim as u64) as usize)),
                    },
                },
                "sys_type" => V::Cyl(1),
                "target_pos" => V::Pos(if wild {
                    let d = if chance(1, 3) { 1 + g(6) as usize } else { dim };
                    gen_pos(d, true)
                } else {
                    vec![0.0; dim]
                }),
                "target_size" => V::F(if wild { gen_f(true) } else { pick(&[0.1, 0.3, 0.05]) }),
                "mtype" => {
                    if wild && chance(1, 4) {
                        V::Move(None)
                    } else {
                        V::Move(Some(if wild { gen_f(true) } else { pick(&[1.0, 0.5, 2.0]) }))
                    }
                }
                "itype" => {
                    if chance(1, 3) {
                        V::Init(Some(gen_pos(dim, wild)))
                    } else {
                        V::Init(None)
                    }
                }
                "num_agent" => V::U(num_agent),
                "ptl_radius" | "gamma" | "ptl_size" => V::F(if wild { gen_f(true) } else { pick(&[0.1, 0.3, 1.0]) }),
                "alpha" => V::F(if wild {
                    let x = gen_f(true);
                    if chance(1, 4) { -x } else { x }
                } else { pick(&[1.0, 0.5, 0.0, 2.0]) }),
                "strength" => V::F(if wild {
                    let x = gen_f(true);
                    if chance(1, 3) { -x } else { x }
                } else {
                    pick(&[1.0, 0.1, -0.1, 0.0])
                }),
                "exp_dim" => V::U(dim),
                "dt" => V::F(if wild { gen_f(true) } else { pick(&[1e-3, 1e-4, 5e-3]) }),
                "tmax" => V::F(if wild { if chance(1, 3) { 0.0 } else { gen_f(true) } } else { pick(&[0.1, 0.02, 0.0, 1.0]) }),
                "dt_min" => V::F(if wild { gen_f(true) } else { pick(&[1e-4, 1e-5]) }),
                "dt_max" => V::F(if wild { gen_f(true) } else { pick(&[1e-3, 5e-3]) }),
                "length" => V::U(10 + g(if wild { 1000 } else { 10 }) as usize),
                "num_ensemble" => V::U(if wild && chance(1, 4) { usize::MAX - g(3) as usize } else { 1 + g(3) as usize }),
                "idx_set" => V::U(if wild && chance(1, 4) { usize::MAX - g(3) as usize } else { 1 + g(5) as usize }),
                "n_thrd" => V::U(1 + g(8) as usize),
                "period" => V::F(if wild { gen_f(true) } else { pick(&[1e-3, 1e-2]) }),
                "seed" => V::W(match g(5) {
                    2 => pick(&[0, 1, 2, 1 << 32, u64::MAX as u128, 1 << 64, 1 << 127]),
                    0 => u128::MAX - g(10) as u128,
                    1 => (g(u64::MAX) as u128) << 64 | g(u64::MAX) as u128,
                    _ => 1 + g(1000) as u128,
                }),
                "output_dir" => V::T(gen_dir()),
                f => panic!("unknown field {}", f),
            };
            c.vals.push((n, v));
        }
    }
    if c.has("sys_type") {
        let d = 1 + g(dim as u64) as usize;
        c.set("sys_type", V::Cyl(d));
        c.set("bctype", V::Bc(BoundaryCond::Mixed(d)));
    }
    fix(&mut c);
    tame(&mut c, p);
    c
}
/// Keep the result file's name within what file systems allow (255 bytes).
fn tame(c: &mut Config, p: &Prog) {
    loop {
        let len = |v: &V| match v {
            V::F(x) => format!("{}", x).len(),
            v => v.debug().len(),
        };
        let names: Vec<&'static str> = p.ds.iter().chain(p.sim_ds).copied().collect();
        let total: usize = p.prefix.len() + names.iter().map(|n| n.len() + 2 + len(c.get(n))).sum::<usize>();
        if total <= 215 {
            return;
        }
        let n = names.into_iter().filter(|n| matches!(c.get(n), V::F(_))).max_by_key(|n| len(c.get(n))).unwrap();
        c.set(n, V::F(pick(&[1.0, 10.0, 0.1, 2.5, 0.3, 5.0, 0.5, 7.0])));
        fix(c);
    }
}
/// Make a changed configuration acceptable to the set-up again.
pub fn fix(c: &mut Config) {
    if c.has("dt_min") && c.f("dt_min") > c.f("dt_max") {
        let (a, b) = (c.f("dt_min"), c.f("dt_max"));
        c.set("dt_min", V::F(b));
        c.set("dt_max", V::F(a));
    }
    if c.has("exp_dim") {
        let d = match c.get("itype") {
            V::Init(Some(p)) => p.len(),
            _ => c.u("exp_dim"),
        };
        c.set("exp_dim", V::U(d));
    }
}
/// A configuration that differs from `c` in exactly one data-set field, mostly
/// as slightly as possible.
pub fn vary(c: &Config, p: &Prog) -> Config {
    for _ in 0..20 {
        let mut d = c.clone();
        let n = pick(p.ds);
        let v = match c.get(n) {
            V::F(x) => {
                let y = match g(6) {
                    0 | 1 => f64::from_bits(x.to_bits() + 1),
                    2 if *x != 0.0 => f64::from_bits(x.to_bits() - 1),
                    _ if matches!(n, "strength" | "alpha") && chance(1, 3) => -x,
                    3 => x * 1.001,
                    4 => x * 10.0,
                    _ => x + 1.0,
                };
                V::F(if y.is_finite() && y != 0.0 { y } else { *x * 0.5 })
            }
            V::U(x) => V::U(if *n == *"length" || *x < 1000 { x + 1 + g(3) as usize } else { x - 1 }),
            v => v.clone(),
        };
        d.set(n, v);
        fix(&mut d);
        tame(&mut d, p);
        let differing = d.key(p).iter().zip(c.key(p).iter()).filter(|(a, b)| a != b).count();
        if differing >= 1 {
            return d;
        }
    }
    c.clone()
}
/// Change what does not identify the configuration.
pub fn vary_other(c: &mut Config, p: &Prog) {
    if !p.ds.contains(&"seed") {
        c.set("seed", V::W(1 + g(1 << 40) as u128));
    }
    for n in ["num_ensemble", "target_pos", "mtype"] {
        if p.ds.contains(&n) || !chance(1, 3) {
            continue;
        }
        match n {
            "num_ensemble" => c.set(n, V::U(g(1000) as usize)),
            "target_pos" => c.set(n, V::Pos(gen_pos(1 + g(3) as usize, false))),
            _ => c.set(n, V::Move(Some(gen_f(false)))),
        }
    }
}
/// Give the configuration its `k`th index set.
pub fn set_index(c: &mut Config, k: usize) {
    if c.has("idx_set") {
        c.set("idx_set", V::U(k));
    } else {
        c.set("n_thrd", V::U(k));
    }
}
impl Config {
    pub fn u_or_zero(&self, n: &str) -> usize {
        match self.vals.iter().find(|v| v.0 == n) {
            Some((_, V::U(x))) => *x,
            _ => 0,
        }
    }
}
