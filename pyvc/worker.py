"""Verifies one contract; prints its report as JSON."""
import json
import sys
import threading


def go():
    from . import logic
    from . import verify as V
    from .verify import load_contracts, verify

    ident, tier = sys.argv[1], sys.argv[2]
    if tier == "thorough":
        logic.LIMITS["timeout"] = 20000
        logic.LIMITS["cvc5"] = True
        V.CASE_SECONDS[0] = 300
    for c in load_contracts():
        if c.ident != ident:
            continue
        r = verify(c, jobs=int(sys.argv[3]) if len(sys.argv) > 3 else None)
        json.dump({
            "contract": c.ident, "title": c.title, "cases": r.cases, "paths": r.paths,
            "obligations": [{"what": o.what, "ok": o.ok, "detail": "" if o.ok else o.detail,
                             "choices": None if o.ok else o.model[0] if o.model else None,
                             "model": None if o.ok or not o.model else o.model[1]} for o in r.obligations],
            "unsupported": [[ch, u[:400]] for ch, u in r.unsupported],
            "funcs": sorted(r.funcs), "trusted": sorted(r.trusted), "solver_s": r.solver_s, "wall": r.wall, "stats": r.stats,
        }, sys.stdout)
        return
    sys.exit(3)


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=go)
t.start()
t.join()
