#!/usr/bin/env python3
"""Development aid: makes and tries planted bugs.  seed.py make|try|check [IDs]
make: (re)writes seeded/<id>/ from bin/seeds.py.  try: build, stable tests and demo in a scratch copy.
check: applies the patch to /repo, runs the property's quick check, undoes the patch."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import seeds
DEMO = """#!/bin/bash
# exit 0: the property holds; anything else: it does not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
xprs = { path = "$R", default-features = false, features = [%s] }
miette = "7"
[workspace]
X
cd "$T" && RUSTUP_TOOLCHAIN=%s CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings cargo run --offline -q
"""
# the REPL built from the tree (into the demonstration's own folder) and a driver
REPL = DEMO.replace('cd "$T" &&', 'export TARGET="$T/repl/debug"\n(cd "$R" && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$T/repl" RUSTFLAGS=-Awarnings cargo build --offline -q --bin repl) || exit 3\ncd "$T" &&')
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def make(s):
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {w}; cd {w}; git init -q; git add -A; git -c user.name=a -c user.email=a@b commit -qm x")
        for f, old, new in s["edits"]:
            p = os.path.join(w, f); x = open(p).read()
            assert x.count(old) == 1, (s["id"], f, x.count(old), old)
            open(p, "w").write(x.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {w} diff").stdout)
    finally: shutil.rmtree(w)
    open(os.path.join(d, "main.rs"), "w").write(s["main"])
    open(os.path.join(d, "demo.sh"), "w").write((REPL if s.get("repl") else DEMO) % (", ".join('"%s"' % x for x in s.get("features", "pemdas compile-time-optimizations").split()), s.get("toolchain", "stable")))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def trial(s):
    d = os.path.join(V, "seeded", s["id"])
    # the build and test scripts name /repo, so the patch is applied there and undone
    r = {}
    x = sh(f"cd /repo && bash {d}/demo.sh"); r["demo0"] = x.returncode
    if x.returncode: print(x.stdout[-1500:])
    assert sh("git -C /repo status --porcelain -uno").stdout == ""
    try:
        x = sh(f"git -C /repo apply {d}/patch.diff"); r["apply"] = x.returncode
        x = sh("bash /opt/vp/build.sh"); r["build"] = x.returncode
        if x.returncode: print(x.stdout[-3000:])
        out = tempfile.mktemp(suffix=".json"); sh(f"bash /opt/vp/test.sh {out}")
        base = json.load(open("/opt/vp/BASELINE.json")); base = base["stable"]
        got = set(json.load(open(out))["passed"]); os.remove(out)
        miss = [b for b in base if b not in got]; r["tests"] = len(miss)
        for m in miss[:6]: print("   fails:", m)
        x = sh(f"cd /repo && bash {d}/demo.sh"); r["demo1"] = x.returncode
        if x.returncode == 0 or "error" in x.stdout[:300]: print(x.stdout[-1500:])
    finally: sh("git -C /repo checkout -- .")
    ok = r["demo0"] == 0 and r["apply"] == 0 and r["build"] == 0 and r["tests"] == 0 and r["demo1"] != 0
    print(s["id"], s["property"], "COUNTS" if ok else "NO", r, flush=True)
def check(s):
    d = os.path.join(V, "seeded", s["id"])
    try:
        sh(f"git -C /repo apply {d}/patch.diff"); t = time.time()
        x = sh(f"python3 bin/check.py {s['property']} --tier quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally: sh("git -C /repo checkout -- .")
    v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
    print(s["id"], s["property"], "CAUGHT" if x.returncode == 1 and v else "MISSED rc=%d" % x.returncode, "%.0fs" % (time.time() - t), flush=True)
    for l in x.stdout.splitlines()[-6:]: print("     ", l[:240], flush=True)
ids = sys.argv[2:]
for s in seeds.ALL:
    if ids and s["id"] not in ids: continue
    {"make": make, "try": trial, "check": check}[sys.argv[1]](s)
