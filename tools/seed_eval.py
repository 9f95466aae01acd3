#!/usr/bin/env python3
"""seed_eval.py SLOT IDS...: for each planted bug, in a scratch copy of /repo:
does the patch apply, build, pass the stable tests; does the demonstration tell
the trees apart; does the property's check (quick) catch it. Results are appended to
/tmp/w/results.jsonl. Not used by any check."""
import json, os, subprocess, sys, shutil, time
slot = sys.argv[1]
opts = [a for a in sys.argv[2:] if a.startswith("--")]
ids = [a for a in sys.argv[2:] if not a.startswith("--")]
R, H, O = f"/tmp/w/repo{slot}", f"/tmp/w/h{slot}", f"/tmp/w/o{slot}"
base = json.load(open("/opt/vp/BASELINE.json"))
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="2", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
def sh(cmd, cwd=R, t=900, env=ENV):
    p = subprocess.run(["timeout", "-k", "10", str(t), "bash", "-c", cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")
def fresh():
    if not os.path.exists(R):
        subprocess.check_call(["cp", "-a", "/repo", R])
    rc, o = sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    assert rc == 0, o
    os.makedirs(H, exist_ok=True)
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "target", "/verif/harness/", H + "/"]) if shutil.which("rsync") else \
        subprocess.check_call(f"mkdir -p {H} && cd /verif/harness && tar c --exclude=./target . | tar x -C {H}", shell=True)
    p = H + "/Cargo.toml"
    s = open(p).read().replace('path = "/repo"', f'path = "{R}"')
    open(p, "w").write(s)
def names(x):
    return x
for id in ids:
    d = f"/verif/seeded/{id}"
    meta = json.load(open(d + "/meta.json"))
    res = {"id": id, "property": meta["property"], "t": time.time()}
    fresh()
    if "--no-demo" not in opts:
        rc, o = sh(f"bash {d}/demo.sh", t=300); res["demo_clean"] = rc
        if rc: res["demo_clean_out"] = o[-600:]
    rc, o = sh(f"git apply {d}/patch.diff"); res["apply"] = rc
    if rc: res["apply_out"] = o
    if "--no-demo" not in opts:
        rc, o = sh(f"bash {d}/demo.sh", t=300); res["demo_bug"] = rc; res["demo_bug_out"] = o[-300:]
    if "--no-test" not in opts:
        rc, o = sh(f"cargo test --workspace --no-fail-fast --offline -- --include-ignored --skip test_many_mergeable_searcher --test-threads 8 > {O}.log 2>&1; python3 /opt/vp/results.py {O}.json cargo:{O}.log", t=1500)
        try:
            got = json.load(open(O + ".json"))
            want = base.get("stable") or base.get("pass") or base.get("passed") or base
            g = got.get("passed") or got.get("pass") or got
            res["tests_lost"] = [x for x in (want if isinstance(want, list) else [k for k in want]) if x not in g]
        except Exception as e:
            res["tests_lost"] = repr(e)
    if "--no-check" not in opts:
        e = dict(ENV); [e.pop(k, None) for k in ("CARGO_PROFILE_DEV_DEBUG", "CARGO_PROFILE_DEV_OPT_LEVEL")]; e["CARGO_INCREMENTAL"] = "0"
        rc, o = sh("cargo build --offline --quiet", cwd=H, env=e)
        if rc: res["harness_build"] = o[-800:]
        props = [meta["property"]] + [a[len("--also="):] for a in opts if a.startswith("--also=")]
        if "--all" in opts: props = [f"C{i:02d}" for i in range(1, 17)]
        res["checks"] = {}
        for p in props:
            t0 = time.time()
            os.makedirs(f"{O}/evidence", exist_ok=True)
            rc, o = sh(f"{H}/target/debug/simcheck check {p} --tier quick --seed 1 --out {O}", cwd=O, env=e)
            res["checks"][p] = [rc, [l for l in o.splitlines() if "VIOLATION" in l or "kind" in l][:3] or o[-300:], round(time.time() - t0)]
    sh("git checkout -q -- .")
    ok = res.get("demo_clean", 0) == 0 and res.get("demo_bug", 1) != 0 and res["apply"] == 0 and not res.get("tests_lost")
    res["counts"] = ok
    print(json.dumps(res), flush=True)
    open("/tmp/w/results.jsonl", "a").write(json.dumps(res) + "\n")
