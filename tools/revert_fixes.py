#!/usr/bin/env python3
"""revert_fixes.py [COMMITS...]: undo each fix commit alone in a scratch copy of /repo
and run the quick check of its property there. Development aid, used by no check."""
import os, re, subprocess, sys
R, H, O = "/tmp/w/repoR", "/tmp/w/hR", "/tmp/w/oR"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
def sh(c, cwd="/", t=900):
    p = subprocess.run(["timeout", str(t), "bash", "-c", c], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")
sh(f"mkdir -p /tmp/w {O}/evidence; [ -d {R} ] || git clone -q /repo {R}; cd {R} && git fetch -q && git reset -q --hard origin/HEAD")
sh(f"mkdir -p {H}; cd /verif/harness && tar c --exclude=./target . | tar x -C {H}; sed -i 's#path = \"/repo\"#path = \"{R}\"#' {H}/Cargo.toml")
for l in open("/verif/known-findings.txt"):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    if not m or (sys.argv[1:] and m[2] not in sys.argv[1:]):
        continue
    sh("git reset -q --hard origin/HEAD; git clean -fdq", R)
    rc, o = sh(f"git revert -n {m[2]}", R)
    if rc:
        print(m[2], m[1], "CONFLICT", flush=True)
        sh("git revert --abort; git reset -q --hard origin/HEAD", R)
        continue
    rc, o = sh("cargo build --offline --quiet 2>&1", H)
    if rc:
        print(m[2], m[1], "BUILD", [x for x in o.splitlines() if x.startswith("error")][:2], flush=True)
        continue
    rc, o = sh(f"{H}/target/debug/simcheck check {m[1]} --tier quick --seed 1 --out {O}", O)
    print(m[2], m[1], rc, [x for x in o.splitlines() if "VIOLATION" in x or "KNOWN" in x][:1], m[3][:60], flush=True)
    sh("git revert --abort; git reset -q --hard origin/HEAD", R)
