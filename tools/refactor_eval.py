#!/usr/bin/env python3
"""refactor_eval.py SLOT [NAMES...]: apply each behaviour-preserving rewrite of
tools/refactors/*.diff to a scratch copy of /repo and run all quick checks there; every
one has to stay quiet.  Development aid, used by no check."""
import os, subprocess, sys, glob
slot = sys.argv[1]
R, H, O = f"/tmp/w/repo{slot}", f"/tmp/w/h{slot}", f"/tmp/w/o{slot}"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
def sh(c, cwd="/", t=1200):
    p = subprocess.run(["timeout", str(t), "bash", "-c", c], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactors")
sh(f"mkdir -p /tmp/w {O}/evidence; [ -d {R} ] || git clone -q /repo {R}; cd {R} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
sh(f"mkdir -p {H}; cd /verif/harness && tar c --exclude=./target . | tar x -C {H}; sed -i 's#path = \"/repo\"#path = \"{R}\"#' {H}/Cargo.toml")
bad = 0
for f in sorted(glob.glob(D + "/*.diff")):
    n = os.path.basename(f)[:-5]
    if sys.argv[2:] and n not in sys.argv[2:]:
        continue
    sh("git checkout -q -- .", R)
    rc, o = sh(f"git apply {f}", R)
    if rc:
        print(n, "does not apply", o); bad = 1; continue
    rc, o = sh("cargo build --offline --quiet 2>&1", H)
    if rc:
        print(n, "BUILD", [x for x in o.splitlines() if x.startswith("error")][:3], flush=True); bad = 1; continue
    out = []
    for i in list(range(1, 17)) + [20]:
        c = f"C{i:02d}"
        rc, o = sh(f"{H}/target/debug/simcheck check {c} --tier quick --seed 1 --out {O}", O)
        if rc:
            bad = 1
            out.append((c, rc, [x for x in o.splitlines()][-6:]))
    print(n, "quiet" if not out else out, flush=True)
sh("git checkout -q -- .", R)
sys.exit(bad)
