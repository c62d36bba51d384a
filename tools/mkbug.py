#!/usr/bin/env python3
"""Turns bug descriptions into /verif/seeded/<id>/, keeping only those that build,
pass the existing tests and are shown by their demonstration.
usage: mkbug.py FILE.py [ID...]     (FILE defines BUGS, see SEEDED in DESIGN.md)"""
import importlib.util, json, os, shutil, subprocess, sys
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
only = sys.argv[2:]
W = "/tmp/bugwork"
if not os.path.isdir(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
def sh(cmd, cwd=W, t=600):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
DEMO = """#!/bin/bash
# Run with cwd at the repository; exit 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
rm -rf /tmp/rustqubo-demo-%(id)s
mkdir -p /tmp/rustqubo-demo-%(id)s/src || exit 3
cat > /tmp/rustqubo-demo-%(id)s/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rustqubo = { path = "$repo", default-features = false }
annealers = { path = "$repo/annealers" }
classical_solver = { path = "$repo/classical_solver" }
rand = { version = "0.7", features = ["small_rng"] }
rayon = "1.5"
[profile.dev]
debug = 0
[profile.release]
opt-level = 1
EOF
cp "$here/demo.rs" /tmp/rustqubo-demo-%(id)s/src/main.rs
unset RUSTFLAGS CARGO_TARGET_DIR
cd /tmp/rustqubo-demo-%(id)s && cargo build -q --offline %(profile)s >build.log 2>&1 || { cat build.log; exit 3; }
timeout 120 ./target/%(dir)s/demo; rc=$?
rm -rf /tmp/rustqubo-demo-%(id)s
exit $rc
"""
def tests():
    out = ""
    for d in ["annealers", "classical_solver", "."]:
        skip = "--skip sa_test" if d == "classical_solver" else ""
        r = sh(f". /opt/vp/env.sh; export RAYON_NUM_THREADS=64; cd {W}/{d} && cargo test --no-fail-fast --offline -- --test-threads 8 {skip}")
        out += r.stdout
        if r.returncode: return False, out
    return True, out
for b in mod.BUGS:
    if only and b["id"] not in only: continue
    d = f"/verif/seeded/{b['id']}"
    sh("git checkout -q -- .")
    ok = True
    for f, old, new in b["edits"]:
        p = f"{W}/{f}"; s = open(p).read()
        n = s.count(old)
        if n != 1:
            print(f"{b['id']}: '{old[:60]}' occurs {n} times in {f}"); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    diff = sh("git diff").stdout
    passed, out = tests()
    if not passed:
        print(f"{b['id']}: does not build or pass:\n" + "\n".join(l for l in out.splitlines() if "error" in l or "FAILED" in l or "panicked" in l or "failed" in l)[:1500]); continue
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(b["demo"])
    prof = b.get("release")
    open(f"{d}/demo.sh", "w").write(DEMO % {"id": b["id"], "profile": "--release" if prof else "", "dir": "release" if prof else "debug"})
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    bad = sh(f"{d}/demo.sh")
    sh("git checkout -q -- .")
    good = sh(f"{d}/demo.sh")
    if good.returncode != 0 or bad.returncode in (0, 3):
        print(f"{b['id']}: demo gives {good.returncode} clean, {bad.returncode} patched\nCLEAN {good.stdout[-800:]}\nPATCHED {bad.stdout[-800:]}")
        shutil.rmtree(d); continue
    print(f"{b['id']}: kept ({bad.stdout.strip().splitlines()[-1][:150] if bad.stdout.strip() else bad.returncode})")
