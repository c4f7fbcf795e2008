"""Verifies contracts: explores code and spec, turns every path into obligations, and
discharges them."""
import importlib
import os
import pickle
import select
import signal
import sys
import time
import traceback

import z3

from . import interp as I
from . import logic
from .builtin import deep_copy
from .seqs import eq_goals
from .values import *
from .world import OpenChoice, SymWorld

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)


class Obligation:
    def __init__(self, what, ok, model=None, detail=""):
        self.what, self.ok, self.model, self.detail = what, ok, model, detail


class Report:
    def __init__(self, c):
        self.contract = c
        self.obligations = []
        self.unsupported = []  # (choices, reason)
        self.paths = 0
        self.cases = 0
        self.funcs = set()
        self.trusted = set()
        self.solver_s = 0.0
        self.wall = 0.0
        self.case_times = []
        self.stats = {}

    @property
    def failed(self):
        return [o for o in self.obligations if not o.ok]


def opaque(ip, args, kw):
    """See api.opaque."""
    ts = [zint(a) if isinstance(a, (int, SInt)) else I.zobj(a) for a in args[1:]]
    return SObj(z3.Function("opq!" + args[0], *[t.sort() for t in ts], Obj)(*ts), "opaque")


def make_interp(cls):
    ip = I.Interp(extra_paths=[VERIF])
    ip.given = dict(cls.opts.get("given", {}))
    ip.inductive = dict(cls.opts.get("inductive", {}))
    ident = lambda ip, a, k: I.Builtin("deco", lambda ip, a2, k2: a2[0])
    api = I.ModuleVal("pyvc.api")
    api.ns["contract"] = I.Builtin("contract", ident)
    api.ns["runtime"] = I.Builtin("runtime", ident)
    api.ns["opaque"] = I.Builtin("opaque", opaque)
    ip.stubs["pyvc.api"] = api
    ip.stubs["pyvc"] = I.ModuleVal("pyvc")
    mod = ip.load(cls.__module__)
    sym = ip.getattr(mod, cls.__name__)

    def fn(f):
        if isinstance(f, str):
            return sym.ns[f]
        n = f.__name__
        if n in sym.ns and f.__module__ == cls.__module__:
            return sym.ns[n]
        return ip.load(f.__module__).ns[n]

    ip.contract_fn = fn
    ip.contract_cls = sym
    return ip


def run_case(cls, choices, rep, budget=None):
    logic.reset()
    logic.LIMITS["shares"] = cls.opts.get("shares", False)
    I_ = make_interp(cls)
    ip = I_
    S = SymWorld(ip, choices)
    args = cls.build(S)
    if not isinstance(args, tuple):
        args = (args,)
    code, spec = ip.contract_fn("code"), ip.contract_cls.ns.get("spec")
    ens = ip.contract_cls.ns.get("ensures")
    frame = cls.opts.get("frame", True)

    def outcome(f, a):
        try:
            return ("ok", ip.call(f, list(a), {}))
        except I.PyRaise as e:
            return ("raise", e.name if hasattr(e, "name") else str(e))

    def thunk():
        pre = [deep_copy(ip, a) for a in args] if frame or spec is not None else None
        ip.used_funcs = {} if not hasattr(ip, "_all_used") else ip.used_funcs
        r = outcome(code, args)
        goals = []
        if frame:
            for k, (a, b) in enumerate(zip(args, pre)):
                eq_goals(a, b, [], goals, "frame: argument %d unchanged" % k)
        res = ("raise", None)
        if spec is not None:
            s = outcome(spec, pre)
            if r[0] != s[0]:
                goals.append(([], z3.BoolVal(False), "outcome: code %s, spec %s" % (show(r), show(s))))
            elif r[0] == "raise":
                anyex = cls.opts.get("any_exception")
                if r[1] != s[1] and not anyex:
                    goals.append(([], z3.BoolVal(False), "exception: code %s, spec %s" % (r[1], s[1])))
                else:
                    goals.append(([], z3.BoolVal(True), "exception %s" % r[1]))
            else:
                n0 = len(goals)
                eq_goals(r[1], s[1], [], goals, "result")
                if len(goals) == n0:
                    goals.append(([], z3.BoolVal(True), "result"))
        elif r[0] == "raise":
            goals.append(([], z3.BoolVal(False), "outcome: code %s" % show(r)))
        if ens is not None and r[0] == "ok":
            out = ip.call(ens, [r[1]] + list(pre), {})
            goals.extend(cond_goals(ip, out, "ensures"))
        return goals

    outs = ip.explore(thunk, assume=S.pre)
    rep.cases += 1
    rep.funcs |= {f for f in ip.used_funcs if f.startswith(("pure_sklearn", "pure_fasttext"))}
    rep.trusted |= ip.trusted
    if not outs:
        rep.obligations.append(Obligation("precondition is satisfiable", False, detail=str(choices)))
        return
    for o in outs:
        if o.kind == "raise":
            raise Unsupported("contract raised %s" % o.value.name)
        rep.paths += 1
        pc = list(S.pre) + list(o.conds)
        for hyp, goal, where in o.value:
            ok = logic.discharge(pc + hyp, goal, S.pre)
            model = None
            if not ok:
                model = find_model(S, pc + hyp + [z3.Not(goal)])
            rep.obligations.append(Obligation(where, ok, (choices, model), detail=str(simp(goal))[:600]))


def cond_goals(ip, v, where):
    v = ip.force(v) if isinstance(v, Choice) else v
    if isinstance(v, (bool, SBool)):
        return [([], zbool(v), where)]
    if isinstance(v, ListVal):
        from .seqs import norm_seq, sub

        s = norm_seq(v.seq)
        out = []
        if isinstance(s, Ex):
            for k, x in enumerate(s.elems):
                out += cond_goals(ip, x, "%s[%d]" % (where, k))
            return out
        if isinstance(s, Tab):
            i = logic.fresh_ix(INT, "e")
            return [([z3.And(i >= 0, i < s.n)] + h, g, w) for h, g, w in cond_goals(ip, sub(s.body, [(s.i, i)]), where + "[i]")]
    if isinstance(v, tuple):
        out = []
        for k, x in enumerate(v):
            out += cond_goals(ip, x, "%s[%d]" % (where, k))
        return out
    raise Unsupported("ensures gives %r" % (v,))


def show(r):
    return "returns" if r[0] == "ok" else "raises %s" % (r[1],)


def find_model(S, asserts):
    """A (small, if possible) model as input overrides, for replay."""
    facts = logic.gather(asserts)
    full = asserts + facts
    full += logic.lit_facts(full)
    ints = [d[1] for k, d in S.inputs.items() if d[0] == "int" and not S.prefixes.get(k)]
    for bound in (3, None):
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*full)
        if bound:
            s.add(*[z3.And(i <= bound, i >= -bound) for i in ints])
        if s.check() == z3.sat:
            m = s.model()
            return extract(S, m)
    return None


def zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(10).as_fraction())
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    return str(v)


def extract(S, m):
    out = {}
    ev = lambda t: zval(m.eval(t, model_completion=True))

    def rec(get, left):
        """Nested lists of get(indices) over the lengths (functions of the indices)."""
        def go(idx, left):
            if not left:
                return get(idx)
            return [go(idx + [i], left[1:]) for i in range(min(int(ev(left[0](idx))), 6))]

        return go([], left)

    for name, d in S.inputs.items():
        pre = S.prefixes.get(name, [])

        def at(t, idx):
            return z3.substitute(t, *[(p, z3.IntVal(v)) for (p, _), v in zip(pre, idx)]) if pre else t

        lens = [lambda idx, n=n: at(n, idx) for _, n in pre]
        try:
            if d[0] in ("int", "real", "bool", "obj"):
                out[name] = rec(lambda idx: ev(at(d[1], idx)), lens)
            elif d[0] == "choice":
                out[name] = d[1]
            elif d[0] in ("array", "sparse"):
                ns = lens + [lambda idx, n=n: at(n, idx) for n in d[-1 if d[0] == "sparse" else 2]]
                f = d[1] if d[0] == "array" else d[2]
                app = lambda f: rec(lambda idx: ev(f(*[z3.IntVal(i) for i in idx])), ns)
                out[name] = app(f)
                if d[0] == "sparse":
                    out[name + ".has"] = app(d[1])
                elif name + ".kind" in S.inputs:
                    out[name + ".kind"] = app(S.inputs[name + ".kind"][1])
        except (z3.Z3Exception, ValueError):
            pass
    return out


JOBS = int(os.environ.get("PYVC_JOBS", "8"))
CASE_SECONDS = [100]


def one_case(cls, ch, debug):
    """Runs one case in this process: ("open", name, n) or ("report", Report)."""
    rep = Report(cls)
    t0 = time.time()
    try:
        run_case(cls, ch, rep)
    except OpenChoice as e:
        return ("open", e.name, e.n)
    except (Unsupported, I.NoFork, RecursionError) as e:
        if debug:
            traceback.print_exc()
        rep.unsupported.append((ch, "%s: %s" % (type(e).__name__, e)))
    except (I.NeedName, I.NeedObj, I.BreakSig, I.ContinueSig, I.ReturnSig, I.PyRaise) as e:
        if debug:
            traceback.print_exc()
        rep.unsupported.append((ch, "internal %s" % type(e).__name__))
    except (z3.Z3Exception, AssertionError, AttributeError, KeyError, IndexError, TypeError, ValueError, NameError) as e:
        if debug:
            traceback.print_exc()
        rep.unsupported.append((ch, "internal %s: %s" % (type(e).__name__, e)))
    rep.case_times.append((round(time.time() - t0, 2), ch))
    return ("report", dict(obligations=[(o.what, o.ok, o.model, o.detail) for o in rep.obligations], unsupported=rep.unsupported,
                           paths=rep.paths, cases=rep.cases, funcs=rep.funcs, trusted=rep.trusted, case_times=rep.case_times, stats=dict(logic.STATS)))


def spawn(cls, ch, debug):
    """Runs one case in a forked process, so that no case depends on the ones before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    os.close(r)
    try:
        out = pickle.dumps(one_case(cls, ch, debug))
        with os.fdopen(w, "wb") as f:
            f.write(out)
        sys.stderr.flush()
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        os._exit(1)


def verify(cls, debug=False, jobs=None):
    rep = Report(cls)
    t0 = time.time()
    todo, live = [{}], {}
    jobs = jobs or JOBS
    while todo or live:
        while todo and len(live) < jobs:
            ch = todo.pop()
            pid, r = spawn(cls, ch, debug)
            live[r] = (pid, ch, [], time.time())
        ready, _, _ = select.select(list(live), [], [], 0.5)
        for r in list(live):
            pid, ch, buf, ts = live[r]
            why = None
            if r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    buf.append(b)
                    continue
            elif time.time() - ts > CASE_SECONDS[0]:
                os.kill(pid, signal.SIGKILL)
                why = "time limit of %d s" % CASE_SECONDS[0]
            else:
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                m = pickle.loads(b"".join(buf)) if why is None else None
            except (EOFError, pickle.UnpicklingError):
                m, why = None, "verifier stopped"
            if m is None:
                rep.unsupported.append((ch, why))
            elif m[0] == "open":
                for k in range(m[2] - 1, -1, -1):
                    todo.append(dict(ch, **{m[1]: k}))
            else:
                m = m[1]
                rep.obligations += [Obligation(*o) for o in m["obligations"]]
                rep.unsupported += m["unsupported"]
                rep.paths += m["paths"]
                rep.cases += m["cases"]
                rep.funcs |= m["funcs"]
                rep.trusted |= m["trusted"]
                rep.case_times += m["case_times"]
                for k, v in m["stats"].items():
                    rep.stats[k] = rep.stats.get(k, 0) + v
    rep.wall = time.time() - t0
    rep.solver_s = rep.stats.get("solver_s", 0.0)
    return rep


def load_contracts():
    sys.path.insert(0, VERIF)
    from . import api

    for f in sorted(os.listdir(os.path.join(VERIF, "contracts"))):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])
    return api.REGISTRY


def main():
    import argparse
    import threading

    ap = argparse.ArgumentParser()
    ap.add_argument("pattern", nargs="?", default="")
    ap.add_argument("-d", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-t", action="store_true")
    a = ap.parse_args()

    def go():
        for c in load_contracts():
            if a.pattern not in c.ident:
                continue
            r = verify(c, a.d)
            bad = r.failed
            slow = max(r.case_times, key=lambda t: t[0])[0] if r.case_times else 0
            print("%-60s cases=%d paths=%d ok=%d bad=%d unsup=%d %.1fs (slowest case %.1fs)" % (c.ident, r.cases, r.paths, len(r.obligations) - len(bad), len(bad), len(r.unsupported), r.wall, slow), flush=True)
            if a.t:
                for x in sorted(r.case_times, key=lambda t: -t[0])[:5]:
                    print("    ", x)
            for ch, u in r.unsupported[:6]:
                print("    UNSUPPORTED", ch, u[:300])
            for o in bad[:6]:
                print("    FAILED", o.what, "|", o.detail[:500] if a.v else o.detail[:150])
                if a.v:
                    print("       ", o.model)

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()


if __name__ == "__main__":
    main()
