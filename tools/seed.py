#!/usr/bin/env python3
"""Writes seeded/<id>/ from the list in seeds.py and confirms each planted bug
in a scratch copy of /repo: builds, passes the stable tests, demo passes on
the unchanged tree and fails with the patch.  usage: seed.py [id ...]"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds import SEEDS
S = "/tmp/seedscratch"
env = dict(os.environ, DEMO_TARGET="/tmp/seedscratch/demo-target")

DEMO_SH = r'''#!/bin/bash
# Runs demo.rs against the crate of the current directory.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'find "$W" -delete' EXIT
mkdir "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$D/lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
sim = { path = "$PWD/sim" }
[profile.dev]
opt-level = 1
END
export CARGO_NET_OFFLINE=true DEMO_DIR="$W"
cargo run -q --offline --manifest-path "$W/Cargo.toml" --target-dir "${DEMO_TARGET:-$W/target}" > "$W/out" 2> "$W/err"
rc=$?
grep -v '^Time\|^Position\|^Velocity\|^Altitude\|^Prop mass\|^ *$\|│\|┌\|└\|^Starting' "$W/out" | tail -20
tail -8 "$W/err"
exit $rc
'''
POST_SH = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'find "$W" -delete' EXIT
export CARGO_NET_OFFLINE=true
T=${DEMO_TARGET:-$W/target}
cargo build -q --offline -p post --target-dir "$T" || exit 3
P=$T/debug/post
'''
PRELUDE = r'''#![allow(unused)]
use sim::Simulation;
fn load(text: &str) -> Result<Simulation, String> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let p = std::path::Path::new(&std::env::var("DEMO_DIR").unwrap()).join(format!("c{}.json", N.fetch_add(1, Ordering::SeqCst)));
    std::fs::write(&p, text).unwrap();
    Simulation::from_file(&p).map_err(|e| e.to_string())
}
macro_rules! run { ($t:expr) => { load($t).unwrap().run() } }
fn close(what: &str, got: f64, want: f64, tol: f64) {
    println!("{what}: got {got}, expected {want}");
    assert!((got - want).abs() <= tol, "{what}: got {got}, expected {want}");
}
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)

def main():
    want = sys.argv[1:]
    os.makedirs(S, exist_ok=True)
    R = S + "/repo"
    if not os.path.isdir(R):
        subprocess.run(["cp", "-a", "/repo", R], check=True)
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", R)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    lock = open(V + "/harness/Cargo.lock").read().replace('name = "mc"', 'name = "demo"').replace(' "serde_json",\n "sim",', ' "sim",')
    for s in SEEDS:
        if want and s["id"] not in want: continue
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        sh("git checkout -q -- .", R)
        for f, old, new in s["edits"]:
            t = open(f"{R}/{f}").read()
            if t.count(old) != 1:
                print(s["id"], "edit does not match once:", f, t.count(old)); break
            open(f"{R}/{f}", "w").write(t.replace(old, new))
        else:
            open(d + "/patch.diff", "w").write(sh("git diff", R).stdout)
            if "sh" in s:
                open(d + "/demo.sh", "w").write(POST_SH + s["sh"])
            else:
                open(d + "/demo.sh", "w").write(DEMO_SH)
                open(d + "/demo.rs", "w").write(PRELUDE + "fn main() {\n" + s["demo"] + "\n}\n")
                open(d + "/lock", "w").write(lock)
            for f in s.get("copy", []): shutil.copy(f"{V}/{f}", d)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            t = sh("timeout 200 cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E '^test |error|warning: unused'", R, env=env)
            failed = [l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l]
            n = sum(" ok" in l for l in t.stdout.splitlines())
            bad = sh(f"timeout 200 bash {d}/demo.sh", R, env=env)
            sh("git checkout -q -- .", R)
            good = sh(f"timeout 200 bash {d}/demo.sh", R, env=env)
            ok = not failed and n >= 38 and bad.returncode != 0 and good.returncode == 0
            print(s["id"], s["property"], "CONFIRMED" if ok else "NOT CONFIRMED", f"tests ok {n}", failed, "with patch", bad.returncode, "without", good.returncode, flush=True)
            if not ok: print(bad.stdout[-600:], bad.stderr[-600:], "----", good.stdout[-600:], good.stderr[-600:])
main()
