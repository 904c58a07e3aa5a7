#!/usr/bin/env python3
"""check.py PROPERTY...: decide properties on the facts of /repo's current source, write evidence/<id>.json"""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "rules"))


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))["findings"] if x.get("status") == "known"]


def main():
    ids = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    facts = os.environ.get("OCA_FACTS")
    if not facts:
        p = subprocess.run(["bash", os.path.join(VERIF, "analyzer", "facts.sh")], stdout=subprocess.PIPE, text=True)
        if p.returncode != 0:
            print("could not extract facts from the repository (does it build?)", file=sys.stderr)
            return 2
        facts = p.stdout.strip().split("\n")[-1]
    from facts import Facts
    from base import R, Missing
    from registry import REGISTRY
    F = Facts(facts)
    F.repo = os.environ.get("OCA_REPO", "/repo")
    tf = time.time() - t0
    bad = 0
    kn = known()
    if ids == ["all"]:
        ids = list(REGISTRY)
    for pid in ids:
        t1 = time.time()
        r = R(F, pid, tier)
        doc, funcs, technique, _ = REGISTRY[pid]
        for f in funcs:
            try:
                f(r)
            except Missing as e:
                r.ob(f"anchor:{f.__name__}", False, f.__name__, f"construct the rule is anchored in not found: {e}")
            except Exception as e:
                r.ob(f"analysis:{f.__name__}", False, f.__name__, "analysis could not finish: " + "".join(traceback.format_exception_only(e)).strip())
                if os.environ.get("OCA_DEBUG"):
                    traceback.print_exc()
        if not r.obs:
            r.ob("anchor:empty", False, pid, "no obligation was generated")
        failed = [o for o in r.obs if not o[1]]
        kk = {x["key"]: x for x in kn if x["property"] == pid}
        new = [o for o in failed if o[0] not in kk]
        old = [o for o in failed if o[0] in kk]
        seen = set()
        for o in old:
            if o[0] not in seen:
                seen.add(o[0])
                print(f"KNOWN-FINDING: property={pid} {kk[o[0]]['what']}")
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        replay = os.path.join(VERIF, "evidence", "replay", pid + ".json")
        if new:
            bad = 1
            json.dump({"property": pid, "how": f"bash check.sh {pid}", "violations": [{"obligation": o[0], "construct": o[2], "problem": o[3]} for o in new]},
                      open(replay, "w"), indent=1, ensure_ascii=False)
            for o in new[:20]:
                print(f"  {o[0]} at {o[2]}: {o[3]}"[:1200])
            print(f"VIOLATION property={pid} replay={replay}")
        elif os.path.exists(replay):
            os.remove(replay)
        own = {k: v for k, v in r.fns.items()}
        if os.environ.get("OCA_FUNCTIONS"):
            open(os.environ["OCA_FUNCTIONS"], "a").write("".join(k + "\n" for k in own))
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": doc,
                "technique": technique,
                "obligations": len(r.obs),
                "discharged": len([o for o in r.obs if o[1]]),
                "known_findings": sorted(seen),
                "functions_analysed": len(own),
                "function_contexts": sum(own.values()),
                "abstract_steps": r.steps,
                "functions": sorted(own)[:60],
                "calls_without_model": r.unmodelled,
                "samples": [{"obligation": o[0], "construct": o[2], "holds": o[1]} for o in r.obs[:: max(1, len(r.obs) // 12)]][:14],
                "notes": r.notes,
            },
            "violations": len(new),
            "wall_s": round(time.time() - t1 + (tf if pid == ids[0] else 0), 2),
        }
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
        print(f"{pid}: {ev['coverage']['discharged']}/{len(r.obs)} obligations discharged, {len(own)} functions, {ev['wall_s']} s")
    return bad


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
