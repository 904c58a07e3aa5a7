#!/usr/bin/env python3
"""mkseed.py [ID…]: (re)creates seeded/<ID>/ from tools/seeds.py and confirms it on /repo: builds, tests pass, demo fails with / passes without,
which check reports it. Leaves /repo as it was. -n: only write the files."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS
R = "/repo"
DEMO = r'''#!/bin/bash
# builds main.rs against the libraries build.sh made; its exit status is that of the program, which keeps its files in a scratch directory
set -u
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUST_BACKTRACE=0
T=/repo/target/debug
X=""
for c in oca_ast_semantics oca_bundle_semantics oca_file_semantics oca_dag_semantics oca_rs oca_ast_transformation oca_file_transformation oca_file transformation_file; do
  X="$X --extern $c=$(ls -t $T/deps/lib$c-*.rlib | head -1)"
done
OK=1
for j in $(ls -t $T/deps/libserde_json-*.rlib); do
  rustc --edition 2021 -A warnings -L dependency=$T/deps $X --extern serde_json=$j "$D/main.rs" -o "$W/demo" 2> "$W/err" && OK=0 && break
done
[ $OK = 0 ] || { cat "$W/err"; exit 2; }
cd "$W" && timeout 120 ./demo
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    a = [x for x in sys.argv[1:] if x[0] != "-"]
    only_write = "-n" in sys.argv
    assert sh(f"git -C {R} status --porcelain -uno").stdout.strip() == "", "repo not clean"
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in SEEDS:
        if a and s["id"] not in a:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                n = s.get("nth", {}).get(old)
                if n is None:
                    assert t.count(old) == 1, (s["id"], f, t.count(old), old[:80])
                    t = t.replace(old, new)
                else:
                    parts = t.split(old)
                    n = n if n >= 0 else len(parts) - 1 + n
                    t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
                open(p, "w").write(t)
            diff = sh(f"git -C {R} diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(s.get("demo_sh", DEMO))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            if "main" in s:
                open(os.path.join(d, "main.rs"), "w").write(s["main"])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            if only_write:
                continue
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print(s["id"], "DOES NOT BUILD", b.stdout[-1500:]); continue
            t = sh("bash /opt/vp/test.sh /tmp/seed_test.json")
            res = json.load(open("/tmp/seed_test.json"))
            dm = sh(f"bash {d}/demo.sh", cwd=R)
            c = sh(f"bash {V}/check.sh {s['property']}")
            viol = f"VIOLATION property={s['property']}" in c.stdout
            failed = failing(res, base)
            print(s["id"], s["property"], "tests:", "ok" if not failed else failed, "demo rc:", dm.returncode, "caught:" , viol, c.returncode)
            if dm.returncode == 2 or dm.returncode == 0: print(dm.stdout[-800:])
            print("\n".join("   " + l[:260] for l in c.stdout.split("\n")[:4]))
        finally:
            sh(f"git -C {R} checkout -- .")
    if not only_write:
        sh("bash /opt/vp/build.sh")
        for s in SEEDS:
            if a and s["id"] not in a: continue
            dm = sh(f"bash {V}/seeded/{s['id']}/demo.sh", cwd=R)
            if dm.returncode: print(s["id"], "DEMO FAILS ON CLEAN TREE", dm.returncode, dm.stdout[-1500:])

def failing(res, base):
    def names(x, k):
        if isinstance(x, dict):
            for kk in (k, ):
                if kk in x: return set(x[kk] if not isinstance(x[kk], dict) else x[kk].keys())
        return set()
    stable = names(base, "stable") or names(base, "passed") or names(base, "tests")
    return sorted(stable - names(res, "passed"))
main()
