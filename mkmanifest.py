"""Writes MANIFEST.json from what is registered (run after adding a property)."""
import json
import os

from pyvc import listing

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {}
with open(os.path.join(HERE, "levels.json")) as fh:
    LEVELS = json.load(fh)
BASE = ("Contracts on the real functions, their obligations generated from /repo's source on every run and discharged by z3 for all sizes and values "
        "(loops by invariants and sequence lemmas, no bound). Trusted: the verifier pyvc and its Python semantics (cross-checked natively on every run), z3, "
        "floats as extended reals. Cases outside its reach are listed in the evidence as bounded stand-ins and not counted as proved.")
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    c, r = listing.of(p["id"])
    info = LEVELS.get(p["id"], {})
    if not c and not r or info.get("not_applicable"):
        na.append({"property": p["id"], "reason": info.get("not_applicable", "the contracts for this property are not written yet")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3-vt run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3-vt run.py %s --tier thorough" % p["id"],
        "technique": "contract-based deductive verification (pyvc: verification conditions from the real source, discharged by z3)",
        "level": info.get("level", "proof"),
        "level_note": (info["note"] + " " if "note" in info else "") + BASE,
    })
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, pyvc.verify' && /opt/venv/bin/python -B -c 'import pyvc.conc'", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
