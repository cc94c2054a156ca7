#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --setup                      build everything once
   check.py --replay FILE                run the case of a replay file again
Exit 0: held. Exit 1: a VIOLATION line. Exit 2: the check itself could not run."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from common import *
import explore as X
import proofs as P


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in read(p).splitlines():
            if l.startswith("known: "):
                # known: property=<id> variant=<v> case=<description> :: what fails
                head, what = l[7:].split(" :: ", 1)
                a, b, c = head.split(" ", 2)
                out.append((a.split("=", 1)[1], b.split("=", 1)[1], c.split("=", 1)[1], what))
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        with Lock():
            for v in VARIANTS:
                b, log = build_explorer(v)
                if b is None and v != "inspect":
                    print(log)
                    return 2
            P.setup()
        return 0
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        if d.get("kind") == "case":
            with Lock():
                rc, o, r = X.replay(d["variant"], d["property"], d["seed"], d["scale"], d["index"])
            print(o, r)
            return 1 if rc != 0 else 0
        print(json.dumps(d, indent=1))
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    thorough = tier == "thorough"
    ms, scale = (240000, 40) if thorough else (20000, 1)
    with Lock():
        pr = P.prove(prop, tier)
        undecided = [o for o in pr["obligations"] if o["status"] != "discharged"]
        if undecided and not thorough:
            ms, scale = 60000, 6   # look harder for a concrete failing input
        ex = X.explore(prop, seed, ms, scale)
        if not ex["fails"] and undecided and not thorough and pr.get("deepen"):
            pass
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    new, listed = [], []
    for f in ex["fails"]:
        for k in known():
            if k[0] == prop and k[1] == f[0] and k[2] == f[2]:
                listed.append((f, k))
                break
        else:
            new.append(f)
    for f, k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    rc = 0
    nviol = 0
    broken = [o for o in pr["obligations"] if o["status"] == "failed"]
    if new:
        v, i, d, m = new[0]
        path = os.path.join(EVID, "replay", "%s.json" % prop)
        json.dump({"kind": "case", "property": prop, "variant": v, "seed": seed, "scale": scale, "index": i, "case": d, "observed": m,
                   "failed_obligations": [{"name": o["name"], "detail": o.get("detail", "")[:2000]} for o in broken],
                   "replay_cmd": "python3 /verif/check.py --replay %s" % path}, open(path, "w"), indent=1)
        print("%s: %s" % (d[:300], m[:500]))
        for o in broken[:5]:
            print("failed obligation: %s (%s)" % (o["name"], o["backend"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc, nviol = 1, len(new)
    elif broken:
        path = os.path.join(EVID, "replay", "%s.json" % prop)
        hit = [o for o in broken if o.get("replayed")]
        json.dump({"kind": "obligation", "property": prop, "failed_obligations": [{"name": o["name"], "backend": o["backend"], "output": o.get("detail", ""), "replayed": o.get("replayed")} for o in broken]}, open(path, "w"), indent=1)
        for o in broken[:5]:
            print("failed obligation: %s (%s)" % (o["name"], o["backend"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if hit else " no-failing-input-found"))
        rc, nviol = 1, len(broken)
    obl = pr["obligations"]
    dis = [o for o in obl if o["status"] == "discharged"]
    undec = [o for o in obl if o["status"] == "undecided"]
    for o in undec:
        print("undecided obligation (the bounded companion stands in): %s: %s" % (o["name"], o.get("detail", "")[:160].replace("\n", " ")))
    cov = {
        "obligations": pr["count"]["generated"], "discharged": pr["count"]["discharged"],
        "checker_cmd": "; ".join(pr["commands"]) or "none", "trusted_base": pr["trusted"],
        "functions_under_contract": sorted(pr["functions"]),
        "obligation_list": [{k: o[k] for k in ("name", "backend", "status", "seconds") if k in o} for o in obl],
        "solver_seconds": round(pr["seconds"], 2), "vacuity_probes": pr["probes"],
        "undecided": [{"name": o["name"], "why": o.get("detail", "")[:400]} for o in undec],
        "bounded_standins": pr["bounded"],
        "evaluations": ex["evaluations"], "distinct_nontrivial": min(ex["distinct"], ex["evaluations"]),
        "rule": "bounded companion (not counted as proved): enumerated and seeded random cases of this property run on the real crate with a failing, recording allocator; a case is non-trivial when it runs at least one operation of the crate whose result is compared with the standard library's",
        "samples": (ex["samples"] or ["none"])[:12], "explored_builds": ex["variants"], "notes": ex["notes"] + pr["notes"],
        "explanation": pr["explanation"],
    }
    os.makedirs(EVID, exist_ok=True)
    lvl = pr["level"]
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": pr["assumptions"],
               "wall_s": round(time.time() - t0, 2), "violations": nviol}, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s: %d of %d obligations discharged, %d undecided, %d bounded cases, %.1f s" % (prop, pr["count"]["discharged"], pr["count"]["generated"], len(undec), ex["evaluations"], time.time() - t0))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except X.BuildError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
