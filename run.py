"""Check of one property: python3-vt run.py ID [--tier quick|thorough].

1. The verifier (pyvc) generates the obligations of every contract of the property from
   /repo's current source and discharges them.
2. The same contracts run natively against the real code on concrete inputs, as do the
   comparisons with the real libraries (bounded; finds failing inputs, proves nothing).
3. An undischarged obligation is searched for a failing input, from the solver's model
   first; it is reported either way."""
import argparse
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
VT = sys.executable
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=VERIF, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, timeout, inp=None):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF, env=ENV, text=True)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return None, o, e


def symbolic(ident, tier):
    rc, o, e = sh([VT, "-m", "pyvc.worker", ident, tier], 280 if tier == "quick" else 700)
    try:
        return json.loads(o)
    except ValueError:
        why = "time limit" if rc is None else "verifier stopped: " + e.strip()[-300:]
        return {"contract": ident, "title": ident.split("/", 1)[1], "cases": 0, "paths": 0, "obligations": [],
                "unsupported": [[{}, why]], "funcs": [], "trusted": [], "solver_s": 0.0, "wall": 0.0, "stats": {}}


def concrete(job, timeout):
    rc, o, e = sh([PY, "-m", "pyvc.conc"], timeout, json.dumps(job))
    res = []
    for line in o.splitlines():
        try:
            res.append(json.loads(line))
        except ValueError:
            pass
    return res, (None if rc == 0 else "time limit" if rc is None else e.strip()[-1500:] or "rc %s" % rc)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from pyvc import listing

    contracts, runtimes = listing.of(prop)
    if not contracts and not runtimes:
        print("no contracts for %s" % prop)
        sys.exit(2)
    quick = tier == "quick"
    job = {"property": prop, "seed": seed, "trials": 400 if quick else 6000, "seconds": 6 if quick else 40,
           "rt_trials": 250, "rt_seconds": 40 if quick else 150, "rt_scale": 1 if quick else 6}
    with ThreadPoolExecutor(7) as ex:
        fs = [ex.submit(symbolic, c, tier) for c in contracts]
        # natively, the contracts one by one
        cs = [ex.submit(concrete, dict(job, only=[c.split("/", 1)[1]]), 120 if quick else 400) for c in contracts + runtimes]
        sym = [f.result() for f in fs]
        con, errs = [], []
        for f in cs:
            r, er = f.result()
            con += r
            if er:
                errs.append(er)
    violations = []
    for r in con:
        if r.get("fail"):
            violations.append(({"property": prop, "contract": "%s/%s" % (prop, r["title"]), "kind": r["kind"], **r["fail"]}, True))
    failing = {r["title"] for r in con if r.get("fail")}
    # undischarged obligations
    for s in sym:
        bad = [o for o in s["obligations"] if not o["ok"]]
        if not bad or s["title"] in failing:
            continue
        hints = []
        for o in bad:
            if o["model"]:
                hints.append(dict(o["choices"] or {}, **o["model"]))
            if o["choices"]:
                hints += [dict(o["choices"])] * 30
        r2, _ = concrete(dict(job, only=[s["title"]], hints={s["title"]: hints}, seed=seed + 1000, trials=3000, seconds=40), 120)
        hit = [r for r in r2 if r.get("fail")]
        if hit:
            f = hit[0]["fail"]
            violations.append(({"property": prop, "contract": s["contract"], "kind": "contract", "obligation": bad[0]["what"],
                                "goal": bad[0]["detail"], **f}, True))
        else:
            violations.append(({"property": prop, "contract": s["contract"], "kind": "obligation", "what": bad[0]["what"],
                                "obligations": bad[:10]}, False))
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    for k, (v, found) in enumerate(violations):
        path = os.path.join(rdir, "%s-%d.json" % (prop, k))
        v["replay_with"] = "cd %s && %s -m pyvc.conc --replay %s" % (VERIF, PY, path)
        with open(path, "w") as fh:
            json.dump(v, fh, indent=1)
        print("%s: %s" % (v["contract"], str(v["what"])[:600]))
        if v.get("args"):
            print("  input: %s" % v["args"][:600])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"))
    obl = sum(len(s["obligations"]) for s in sym)
    done = sum(o["ok"] for s in sym for o in s["obligations"])
    bounded = [{"contract": s["contract"], "cases": len(s["unsupported"]), "why": s["unsupported"][0][1]} for s in sym if s["unsupported"]]
    stats = {}
    for s in sym:
        for k, v in s["stats"].items():
            stats[k] = round(stats.get(k, 0) + v, 3)
    errors = [r["title"] + ": " + r["error"] for r in con if r.get("error")] + errs
    info = listing.describe(prop)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": info["level"],
        "coverage": {
            "obligations": obl, "discharged": done,
            "checker_cmd": "python3-vt run.py %s --tier %s" % (prop, tier),
            "trusted_base": listing.TRUSTED + info.get("trusted", []) + sorted({t for s in sym for t in s["trusted"]}),
            "back_end": "pyvc (verification conditions from /repo source) discharged by z3 %s" % listing.z3_version() + (", unsat answers re-checked by cvc5" if stats.get("cvc5") else ""),
            "functions_under_contract": sorted({f for s in sym for f in s["funcs"]}),
            "contracts": [{"contract": s["contract"], "cases": s["cases"], "paths": s["paths"], "obligations": len(s["obligations"]),
                           "discharged": sum(o["ok"] for o in s["obligations"]), "bounded_cases": len(s["unsupported"]),
                           "wall_s": round(s["wall"], 2)} for s in sym],
            "bounded_standins": bounded,
            "solver": stats, "solver_s": round(sum(s["solver_s"] for s in sym), 2),
            "concrete": [{k: r[k] for k in ("kind", "title", "trials", "rejected", "seconds")} for r in con],
            "concrete_errors": errors,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for line in listing.known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    print("%s %s: %d/%d obligations discharged, %d contracts (%d with bounded cases), %d concrete runs, %.1fs" % (
        prop, tier, done, obl, len(sym), len(bounded), sum(r["trials"] for r in con), time.time() - t0))
    for e in errors:
        print("note:", e[-600:])
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
