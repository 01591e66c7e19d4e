#!/usr/bin/env python3
"""check.py <PROPERTY> - decides one property by solver-based checking of /repo's current source.

Exit 0: held on everything explored. Exit 1: a line `VIOLATION property=<id> replay=<path>`.
Exit 2: the check itself could not run.
"""
import json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import parts, info

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("status") == "known" and k["property"] == prop]
    ctx = parts.Ctx(HERE, prop, tier, seed)
    try:
        results = parts.run_all(ctx)
    except parts.CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
    viol, knownhits, undecided, notes = [], {}, [], []
    for r in results:
        for v in r["violations"]:
            hit = None
            for k in known:
                if re.fullmatch(k["unit"], r["unit"]) and re.fullmatch(k["label"], v["label"]):
                    hit = k
                    break
            if hit:
                knownhits.setdefault(hit["what"], []).append(v)
            else:
                viol.append((r, v))
        undecided += ["%s: %s" % (r["unit"], u) for u in r.get("undecided", [])]
        notes += ["%s: %s" % (r["unit"], n) for n in r.get("notes", [])]
    for w in sorted(knownhits):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    wall = time.time() - t0
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions") + tot("obligations"),
            "traces_validated_against_impl": tot("validated"),
            "samples": [s for r in results for s in r.get("samples", [])][:12] or ["(none)"],
            "functions_encoded": sorted({f for r in results for f in r.get("functions", [])}) + info.FUNCS.get(prop, []),
            "bounds": info.GENERAL + ["%s: %s" % (r["unit"], r.get("about", "")) for r in results] + ([("outside the bounds: " + info.OUTSIDE[prop])] if prop in info.OUTSIDE else []),
            "units": [{k: r[k] for k in r if k in ("unit", "about", "engine", "paths", "infeasible", "decisions", "obligations", "queries", "unsat", "sat", "unknown", "normal_form_only", "solver_s", "wall_s", "truncated")} for r in results],
            "queries": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
            "solver_s": round(sum(r.get("solver_s", 0) or 0 for r in results), 3),
            "undecided": undecided[:50], "notes": notes[:50],
            "known_findings_hit": sorted(knownhits),
        },
        "assumptions": parts.assumptions(prop),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d units, %d cases, %d obligations, %d solver queries (%d unsat, %d sat, %d unknown), %.1fs" % (
        prop, len(results), tot("paths"), tot("obligations"), tot("queries"), tot("unsat"), tot("sat"), tot("unknown"), wall))
    for u in undecided[:10]:
        print("UNDECIDED: " + u[:300])
    for n in notes[:10]:
        print("NOTE: " + n[:300])
    if viol:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, (r, v) in enumerate(viol[:10]):
            path = os.path.join(rd, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "unit": r["unit"], "engine": r.get("engine"), **v}, f, indent=1)
            print("violated: %s / %s" % (r["unit"], v["label"][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    sys.exit(0)

main()
