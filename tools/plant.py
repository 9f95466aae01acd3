"""Helper to write a planted bug: plant(id, property, edits, needs, breaks, main_rs[, extra files])."""
import json, os, subprocess, shutil, tempfile
SEEDED = "/verif/seeded"
DEMO = r'''#!/bin/bash
# Builds main.rs against the moledyn sources in the current directory and runs
# it inside a scratch directory. Exit 0: the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
unset RUSTFLAGS
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/scratch"
cp "$here"/*.rs "$work/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
moledyn = { path = "$repo" }
rand = "0.7"
rand_distr = "0.2.2"
[profile.dev]
debug = 0
EOF
export CARGO_TARGET_DIR="$work/target"
(cd "$work" && cargo build --offline --quiet) || { echo "the demonstration does not build"; exit 3; }
cd "$work/scratch" || exit 3
timeout 120 "$work/target/debug/demo" > "$work/out" 2>&1
rc=$?
tail -n 5 "$work/out"
exit $rc
'''
def plant(id, prop, edits, needs, breaks, main_rs, env=None, common=True):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp/w")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + t, shell=True)
        subprocess.check_call(f"cd {t} && git init -q . && git add -A -f . && git -c user.name=a -c user.email=a@b commit -qm base", shell=True)
        for e in edits:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else None
            p = os.path.join(t, f)
            s = open(p).read()
            n = s.count(old)
            if nth is None:
                assert n == 1, (id, f, old, n)
                s = s.replace(old, new)
            else:
                assert n > nth, (id, f, old, n)
                pos = -1
                for _ in range(nth + 1):
                    pos = s.index(old, pos + 1)
                s = s[:pos] + new + s[pos + len(old):]
            open(p, "w").write(s)
        diff = subprocess.check_output(["git", "-C", t, "diff"]).decode()
        assert diff, id
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(t)
    demo = DEMO
    if env:
        demo = demo.replace("set -u\n", "set -u\n" + "".join(f"export {k}={v}\n" for k, v in env.items()))
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(main_rs.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("planted", id)
