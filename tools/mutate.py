#!/usr/bin/env python3
"""mutate.py SLOT SHARD SHARDS N SEED [DIR]: plant N single-token mutants at random places of a scratch copy's
src and run the checks of that part of the code on each; prints which mutants no check
noticed.  Development aid, used by no check."""
import os, random, re, subprocess, sys, json, time
slot, shard, shards, N, seed = sys.argv[1], *map(int, sys.argv[2:6])
R, H, O = f"/tmp/w/repo{slot}", f"/tmp/w/h{slot}", f"/tmp/w/o{slot}"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
def sh(c, cwd="/", t=1200):
    p = subprocess.run(["timeout", "-k", "5", str(t), "bash", "-c", c], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")
MAP = [("moledyn_proc", "C14 C01 C02 C06 C07"), ("analysis.rs", "C02 C03 C16 C04 C05 C06 C20 C07 C14"), ("setup.rs", "C01 C14 C02 C04 C06 C07"), ("macros.rs", "C01 C14 C02 C04 C06 C07"),
       ("argument.rs", "C01 C14 C02"), ("iterator.rs", "C12 C15 C13"), ("position.rs", "C08 C10 C15 C01"), ("agent_mod", "C09 C10 C13 C15 C01 C07 C12"),
       ("system_mod", "C08 C01 C09 C02 C15"), ("target_mod", "C09 C01 C02"), ("time_mod", "C11 C01 C07"), ("random_mod", "C10 C07 C09"), ("", "C01 C02 C07")]
CMP = {" < ": " <= ", " <= ": " < ", " > ": " >= ", " >= ": " > ", " == ": " != ", " != ": " == ", " && ": " || ", " || ": " && ",
       " + ": " - ", " - ": " + ", " * ": " / ", " / ": " * ", " += ": " -= ", " -= ": " += ", " *= ": " /= "}
def drops(code):
    # an error that is dropped
    m = re.match(r"^(\s*)([^=]*\))\?;\s*$", code)
    return m and m[1] + "let _ = " + m[2].strip() + ";"
def mutants():
    out = []
    for d, _, fs in os.walk(R + "/" + (sys.argv[6] if len(sys.argv) > 6 else "src")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            lines = open(p).read().split("\n")
            for i, l in enumerate(lines):
                if "#[cfg(test)]" in l or re.match(r"\s*mod tests?\b", l):
                    break
                code = l.split("//")[0]
                if not code.strip() or re.search(r"^\s*(use|mod|pub use|pub mod|#|assert|panic|fn |pub fn|impl|struct|pub struct|trait|where)", code) or "->" in code:
                    continue
                if os.environ.get("MUT") == "drop":
                    if drops(code):
                        out.append((p, i, drops(code)))
                    continue
                for a, b in CMP.items():
                    k = -1
                    while (k := code.find(a, k + 1)) >= 0:
                        out.append((p, i, l[:k] + b + l[k + len(a):]))
                for m in re.finditer(r"(?<![\w.\"'$#{:])(\d+)(\.\d*)?(f64)?(?![\w\"'}])", code):
                    v = m.group(1)
                    for w in ({"0": ["1"], "1": ["0", "2"], "2": ["1", "3"]}.get(v, [str(int(v) + 1)])):
                        out.append((p, i, l[:m.start(1)] + w + l[m.end(1):]))
                for a, b in (("true", "false"), ("false", "true"), ("continue;", "break;"), ("break;", "continue;"), (".floor()", ".ceil()"), (".ceil()", ".floor()"),
                             (".round()", ".floor()"), (".min(", ".max("), (".max(", ".min("), ("if !", "if "), (".sqrt()", ""), (".abs()", ""), ("..=", ".."), (".flush()?", ""), (".rev()", "")):
                    k = code.find(a)
                    if k >= 0:
                        out.append((p, i, l[:k] + b + l[k + len(a):]))
                if re.match(r"^\s*(self|\*?\w+)(\.\w+|\[[^\]]*\])*\s*([-+*/]?=)[^=].*;\s*$", code) or re.match(r"^\s*[\w.$()&:]+(\(.*\))\??;\s*$", code):
                    out.append((p, i, re.match(r"\s*", l).group(0) + "{}"))
                if re.match(r"^\s*(else )?if .*\{\s*$", code) and " let " not in code:
                    out.append((p, i, re.sub(r"if (.*)\{\s*$", r"if !(\1){", code)))
    return out
sh(f"mkdir -p {O}/evidence; [ -d {R} ] || git clone -q /repo {R}; cd {R} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
sh(f"mkdir -p {H}; cd /verif/harness && tar c --exclude=./target . | tar x -C {H}; sed -i 's#path = \"/repo\"#path = \"{R}\"#' {H}/Cargo.toml")
all_ = mutants()
random.Random(seed).shuffle(all_)
mine = all_[shard::shards][:N]
print(len(all_), "mutants,", len(mine), "here", flush=True)
tally = {}
for p, i, new in mine:
    sh("git checkout -q -- .", R)
    src = open(p).read().split("\n")
    old, src[i] = src[i], new
    open(p, "w").write("\n".join(src))
    rc, o = sh("nice -n 10 cargo build --offline --quiet 2>&1", H)
    f = os.path.relpath(p, R)
    res = "unbuilt" if rc else "SURVIVED"
    if not rc:
        t0 = time.time()
        for c in (["C04"] if os.environ.get("MUT") == "drop" else []) + next(v for k, v in MAP if k in f).split():
            rc, o = sh(f"nice -n 10 {H}/target/debug/simcheck check {c} --tier quick --seed {seed} --cap 25 --workers 4 --out {O}", O, 300)
            if rc:
                res = f"{c} {rc}"
                break
    tally[res.split()[0]] = tally.get(res.split()[0], 0) + 1
    print(json.dumps({"res": res, "at": f"{f}:{i+1}", "old": old.strip(), "new": new.strip()}), flush=True)
sh("git checkout -q -- .", R)
print(tally)
