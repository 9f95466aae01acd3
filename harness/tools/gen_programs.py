#!/usr/bin/env python3
"""Writes src/programs.rs: one simulation program per combination below.

Every program is what a user of moledyn writes: the set-up macros of the crate
(the real code under test) followed by a body.  The body hands its locals to the
harness and lets it write records (src/jobs.rs, src/md.rs).
"""
SYS = ["ContCircSystem", "ContCubicSystem", "ContCylindricalSystem"]
AGENT = ["ContPassiveIndepAgent", "ContPassiveMergeAgent", "ContPassiveExpAgent", "ContPassiveLJAgent"]
TIME = ["ConstStep", "ExponentialStep"]
SIM = ["VariableSimulation", "ParVariableSimulation", "ProcessSimulation"]
AN = ["TimeAnalysis", "TimeVecAnalysis", "ProcessAnalysis"]
TGT = "ContBulkTarget"

LOCALS = {
    "ContCircSystem": ["sys_size", "dim"],
    "ContCubicSystem": ["sys_size", "dim"],
    "ContCylindricalSystem": ["sys_radius", "sys_length", "dim"],
    "ContBulkTarget": ["target_pos", "target_size"],
    "ContPassiveIndepAgent": ["mtype", "itype", "num_agent"],
    "ContPassiveMergeAgent": ["mtype", "itype", "ptl_radius", "alpha", "num_agent"],
    "ContPassiveExpAgent": ["mtype", "itype", "gamma", "exp_dim", "strength", "num_agent"],
    "ContPassiveLJAgent": ["mtype", "itype", "ptl_size", "strength", "num_agent"],
    "ConstStep": ["dt", "tmax"],
    "ExponentialStep": ["dt_min", "dt_max", "length", "tmax"],
    "VariableSimulation": ["num_ensemble", "idx_set", "seed", "output_dir"],
    "ParVariableSimulation": ["num_ensemble", "seed", "n_thrd", "output_dir"],
    "ProcessSimulation": ["num_ensemble", "period", "idx_set", "seed", "output_dir"],
}
# data set fields declared by simulation! (with types for the hand-made ones)
DS = {
    "ContCircSystem": [("sys_size", "f64"), ("dim", "usize")],
    "ContCubicSystem": [("sys_size", "f64"), ("dim", "usize")],
    "ContCylindricalSystem": [("sys_radius", "f64"), ("sys_length", "f64"), ("dim", "usize")],
    "ContBulkTarget": [("target_size", "f64")],
    "ContPassiveIndepAgent": [("num_agent", "usize")],
    "ContPassiveMergeAgent": [("ptl_radius", "f64"), ("alpha", "f64"), ("num_agent", "usize")],
    "ContPassiveExpAgent": [("gamma", "f64"), ("strength", "f64"), ("num_agent", "usize")],
    "ContPassiveLJAgent": [("ptl_size", "f64"), ("strength", "f64"), ("num_agent", "usize")],
    "ConstStep": [("dt", "f64"), ("tmax", "f64")],
    "ExponentialStep": [("dt_min", "f64"), ("dt_max", "f64"), ("length", "usize"), ("tmax", "f64")],
    "VariableSimulation": [("idx_set", "usize")],
    "ParVariableSimulation": [("n_thrd", "usize")],
    "ProcessSimulation": [("period", "f64"), ("idx_set", "usize")],
}

progs = []
for a in range(4):
    for s in range(3):
        progs.append(dict(kind="sim", sys=(a + s) % 3, agent=a, time=(a + s + (1 if a >= 2 and s == 2 else 0)) % 2,
                          sim=s, an=(a + 2 * s) % 3))
# more of the plain single-time programs, and the pairs the square misses
progs.append(dict(kind="sim", sys=0, agent=0, time=1, sim=0, an=1))
progs.append(dict(kind="sim", sys=2, agent=1, time=0, sim=0, an=2))
progs.append(dict(kind="sim", sys=1, agent=0, time=0, sim=0, an=0))
progs.append(dict(kind="sim", sys=0, agent=2, time=1, sim=0, an=0))
# hand-made data sets through setup_simulation! / setup_simulation_fixed!
progs.append(dict(kind="direct", skip=1, width=20, group=True, sys=0, agent=0, time=0, sim=0, an=0,
                  ds=[["sys_size", "dim"], ["target_size"], ["num_agent"], ["dt"], ["idx_set"]]))
progs.append(dict(kind="fixed", skip=0, width=15, group=False, sys=0, agent=0, time=0, sim=0, an=0,
                  ds=[["sys_size", "dim"], ["target_size"], ["num_agent"], ["dt"], ["idx_set"]]))
progs.append(dict(kind="fixed", skip=1, width=10, group=True, sys=1, agent=1, time=1, sim=0, an=1,
                  ds=[["sys_size", "dim"], ["target_size"], ["num_agent", "ptl_radius", "alpha"],
                      ["dt_min", "dt_max", "length"], ["idx_set"]]))
progs.append(dict(kind="fixed", skip=2, width=3, group=True, sys=2, agent=3, time=1, sim=2, an=2,
                  ds=[["dim", "sys_length", "sys_radius"], [], ["strength", "ptl_size"], ["tmax"], ["idx_set", "period"]]))
progs.append(dict(kind="direct", skip=1, width=40, group=False, sys=1, agent=2, time=0, sim=1, an=1,
                  ds=[["sys_size"], ["target_size"], ["gamma", "num_agent"], ["dt"], ["n_thrd"]]))

FT = {}
for k, v in DS.items():
    for n, t in v:
        FT[n] = t

out = ["// Generated by tools/gen_programs.py; do not edit.",
       "#![allow(unused_variables, unused_imports, unused_mut, dead_code, unused_assignments)]",
       "use crate::jobs;", "use crate::md;", "use crate::meta::*;", "use moledyn::prelude::*;", ""]
meta = []
for i, p in enumerate(progs):
    ty = [SYS[p["sys"]], TGT, AGENT[p["agent"]], TIME[p["time"]], SIM[p["sim"]]]
    an = AN[p["an"]]
    argn = ["sys_arg", "target_arg", "agent_arg", "time_arg", "sim_arg"]
    objs = ["sys", "target", "vec_agents", "timeiter", "simulation"]
    prefix = "RTS_%s_%02d" % (["N_PTL", "MERGE", "EXP", "LJ"][p["agent"]], i)
    locs = []
    for t in ty:
        locs += LOCALS[t]
    out.append("fn p%02d() -> Result<(), Error> {" % i)
    if p["kind"] == "sim":
        skip, width, group = 1, 15, True
        ds = [[n for n, _ in DS[t]] for t in ty]
        out.append('    simulation!("%s", %s, %s);' % (prefix, an, ", ".join(ty)))
    else:
        skip, width, group = p["skip"], p["width"], p["group"]
        ds = p["ds"]
        parts = []
        for t, n, f in zip(ty, argn, ds):
            parts.append("%s, %s, %sArguments, [%s]" % (t, n, t, ", ".join("%s, %s" % (x, FT[x]) for x in f)))
        body = "; ".join(parts[:4]) + ("; {%s}" % parts[4] if group else "; " + parts[4])
        out.append("    construct_dataset!(SimulationData, %s);" % body)
        if p["kind"] == "fixed":
            out.append("    let args: Vec<String> = jobs::fixed_args();")
            mac = "setup_simulation_fixed"
        else:
            mac = "setup_simulation"
        out.append('    %s!(args, %d, %d, %s, "%s", dataset, SimulationData, %s);' % (
            mac, width, skip, an, prefix, ", ".join("%s, %s" % (n, t) for n, t in zip(argn, ty))))
        for t, n in zip(ty, argn):
            for l in LOCALS[t]:
                out.append("    let %s = %s.%s.clone();" % (l, n, l))
        out.append('    export_simulation_info!(dataset, output_dir, writer, WIDTH, "%s", %s);' % (
            prefix, ", ".join("%s, %s, %s" % (t, o, n) for t, o, n in zip(ty, objs, argn))))
    out.append("    jobs::report(")
    out.append("        vec![%s]," % ", ".join('("%s", format!("{:?}", %s))' % (l, l) for l in locs))
    out.append("        vec![%s]," % ", ".join('format!("{:?}", %s)' % n for n in argn))
    out.append("        vec![%s]," % ", ".join('format!("{:?}", %s)' % o for o in objs[:4]))
    out.append('        format!("{:?}", dataset), dataset.export_file_removed_idx("%s"));' % prefix)
    out.append("    let reread = |path: &str| jobs::reread::<SimulationData>(path, &mut |l| Ok((vec![")
    for t in ty:
        out.append('        { let a: %sArguments = <%s as Argument<%sArguments>>::read_args_from_lines(l)?; format!("{:?}", a) },' % (t, t, t))
    out.append("    ], ())));")
    out.append("    let plan = md::Plan { num_ensemble: num_ensemble as u64, seed: seed, kind: An::%s };" % an)
    out.append("    jobs::work(&mut writer, &reread, |w| md::run(&plan, &sys, &target, &vec_agents, &timeiter, w))")
    out.append("}")
    out.append("")
    kinds = ", ".join("Part::" + t for t in ty)
    meta.append('    Prog { name: "p%02d", prefix: "%s", parts: [%s], an: An::%s, skip: %d, fixed: %s, grouped: %s, ds: &[%s], sim_ds: &[%s], run: p%02d },' % (
        i, prefix, kinds, an, skip, "true" if p["kind"] == "fixed" else "false", "true" if group else "false",
        ", ".join('"%s"' % x for f in (ds[:4] if group else ds) for x in f),
        ", ".join('"%s"' % x for x in (ds[4] if group else [])), i))
out.append("pub static PROGRAMS: &[Prog] = &[")
out += meta
out.append("];")
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "src", "programs.rs"), "w").write("\n".join(out) + "\n")

pairs = {}
for p in progs:
    for a in ("sys", "agent", "time", "sim", "an"):
        for b in ("sys", "agent", "time", "sim", "an"):
            if a < b:
                pairs.setdefault((a, b), set()).add((p[a], p[b]))
N = dict(sys=3, agent=4, time=2, sim=3, an=3)
for (a, b), s in pairs.items():
    if len(s) < N[a] * N[b]:
        print("missing", a, b, N[a] * N[b] - len(s), sorted(set((x, y) for x in range(N[a]) for y in range(N[b])) - s))
print(len(progs), "programs")
