"""Concrete worlds: random and model-driven inputs for the contracts, run natively against
the real code of /repo (runtime contract checking; bounded, never counted as proof)."""
import ast
import copy
import json
import math
import os
import random
import struct
import sys
import time
import traceback
import warnings

REPO = os.environ.get("PYVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
from pyvc.api import Reject  # noqa: E402


def harvest():
    """Literals of the source under test: likely trigger values."""
    ints, floats, strs = set(), set(), set()
    for pkg in ("pure_sklearn", "pure_fasttext"):
        for root, dirs, files in os.walk(os.path.join(REPO, pkg)):
            dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__")]
            for f in files:
                if not f.endswith(".py"):
                    continue
                try:
                    t = ast.parse(open(os.path.join(root, f)).read())
                except SyntaxError:
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant):
                        v = n.value
                        if isinstance(v, bool):
                            continue
                        if isinstance(v, int) and abs(v) < 10 ** 6:
                            ints.add(v)
                        elif isinstance(v, float) and math.isfinite(v):
                            floats.add(v)
                        elif isinstance(v, str) and 0 < len(v) <= 12:
                            strs.add(v)
    return sorted(ints), sorted(floats), sorted(strs)


_float = float
float_, int_ = float, int


# words of a vocabulary; pieces of a line of text
POOLS = {"word": ["b", "</s>", "a", "\u00e9", "B", "x1", "</s>x", "a.b"],
         "piece": ["b", "a", "B", "</s>", "\u00e9", "x1", "k8", " ", " ", " ", "\t", "\0", "\v", "\r", "\f", "  ", "\u00a0", "\x1f", "unknown", ".", ""]}


class ConcWorld:
    symbolic = False

    def __init__(self, rng, lits, over=None):
        import numpy as np

        self.np_ = np
        self.rng = rng
        self.ints, self.floats, self.strs = lits
        self.over = over or {}
        self.record = {}
        self.prefix = []
        self.mode = rng.choice(["dyadic", "dyadic", "normal", "mixed", "mixed", "extreme", "lits"])
        self.big = rng.random() < 0.1
        self.zeros = rng.choice([0.0, 0.1, 0.5])

    # -- numbers
    def num(self, where=None):
        r = self.rng
        m = self.mode if self.mode != "mixed" else r.choice(["dyadic", "normal", "lits", "wide"])
        if m == "extreme" and r.random() > 0.2:
            m = "wide"
        if r.random() < self.zeros:
            v = 0.0
        elif m == "dyadic":
            v = r.randint(-16, 16) / 8.0
        elif m == "normal":
            v = r.gauss(0, 2)
        elif m == "wide":
            v = r.gauss(0, 1) * 10 ** r.randint(-6, 3)
        elif m == "lits":
            v = float(r.choice(self.floats + self.ints or [1.0]))
            if abs(v) > 2000:
                v = 1.0
            if r.random() < 0.3:
                v += r.choice([-1, 1, 1e-9, -0.5])
        else:
            v = r.choice([5000.0, -5000.0, 745.0, -745.0, 710.0, 1e-300, 36.8, -36.8, 20.0, 1e-8])
        if where in ("pos", "prob"):
            v = abs(v)
            if v == 0:
                v = 0.5
        if where == "prob":
            v = v if v <= 1 else 1.0 / v
        if where == "nonneg":
            v = abs(v)
        if where == "unit":
            v = abs(v)
            v = 1.0 if r.random() < 0.1 else v if v <= 1 else 1.0 / v
        if where == "nonzero" and v == 0:
            v = r.choice([-1.0, 1.0, 0.25])
        return v

    def _over(self, name):
        o = self.over.get(name)
        return self._dig(o, self.prefix) if o is not None and self.prefix else o

    def _rec(self, name, v):
        if not self.prefix:
            self.record[name] = v
            return v
        cur = self.record.setdefault(name, [])
        for q, i in enumerate(self.prefix):
            while len(cur) <= i:
                cur.append([] if q < len(self.prefix) - 1 else None)
            if q == len(self.prefix) - 1:
                cur[i] = v
            else:
                cur = cur[i]
        return v

    def each(self, name, n, build, kind="list"):
        out = []
        for i in range(n):
            self.prefix.append(i)
            try:
                out.append(build(self))
            finally:
                self.prefix.pop()
        return tuple(out) if kind == "tuple" else out

    def tree(self, name, d, K, where=None):
        r = self.rng
        over = [self._over("%s.%s" % (name, x)) for x in ("left", "right", "feature", "threshold")]
        n = self._over(name + ".N")
        nodes = None
        if isinstance(n, int) and all(isinstance(o, list) and len(o) >= n for o in over):
            nodes = [[o[i] for o in over] for i in range(n)]
            for i, (a, b, f, t) in enumerate(nodes):
                if not (a == b == -1 or (i < a < n and i < b < n and a != b and 0 <= f < d)):
                    nodes = None
                    break
        if nodes is None:
            nodes = []

            def grow(depth):
                i = len(nodes)
                nodes.append([-1, -1, -2, -2.0])
                if depth > 0 and r.random() < 0.75:
                    f, t = r.randrange(d), self.num()
                    a = grow(depth - 1)
                    b = grow(depth - 1)
                    nodes[i] = [a, b, f, t]
                return i

            grow(r.choice([0, 1, 2, 3]))
            n = len(nodes)
        self._rec(name + ".N", n)
        for k, x in enumerate(("left", "right", "feature", "threshold")):
            self._rec("%s.%s" % (name, x), [v[k] for v in nodes])
        V = self.list(name + ".value", (n, 1, K), "float", "nonneg" if where == "counts" else where)
        if where == "counts" and any(sum(v[0]) <= 0 for v in V):
            for v in V:
                if sum(v[0]) <= 0:
                    v[0][r.randrange(K)] = r.choice([1.0, 2.0, 0.5])
            self._rec(name + ".value", V)
        c = lambda k: self.arr([v[k] for v in nodes])
        return self.stub("Tree", children_left=c(0), children_right=c(1), feature=c(2), threshold=self.arr([float(v[3]) for v in nodes]),
                         value=self.arr(V), node_count=n)

    def choice(self, name, options):
        k = self.record.get(name) if self.prefix else None  # one choice for all of each()
        k = self.over.get(name) if k is None else k
        if not (isinstance(k, int) and 0 <= k < len(options)):
            k = self.rng.randrange(len(options))
        self.record[name] = k
        return options[k]

    def dim(self, name, lo=1, hi=None):
        v = self._over(name)
        if not isinstance(v, int) or v > 60 or v < lo:
            r = self.rng
            v = r.choice([lo, lo + 1, lo + 1, lo + 2, lo + 2, lo + 3, lo + 4])
            if self.big:
                c = [x + q for x in self.ints for q in (-1, 0, 1) if lo <= x + q <= 40]
                v = r.choice(c + [lo + 8, lo + 12])
        if hi is not None:
            v = min(v, hi)
        if v < lo:
            raise Reject()
        self._rec(name, v)
        return v

    def int(self, name, lo=None, hi=None):
        v = self._over(name)
        lo2 = -5 if lo is None else lo
        hi2 = max(lo2, 0) + 6 if hi is None else hi
        if not isinstance(v, int) or not (lo2 <= v <= hi2):
            if hi2 < lo2:
                raise Reject()
            v = self.rng.randint(lo2, hi2)
        self._rec(name, v)
        return v

    def float(self, name, where=None, nan=False):
        v = self._over(name)
        if not isinstance(v, (int, float)):
            v = self.num(where)
            if nan and self.rng.random() < 0.3:
                v = float("nan")
        self._rec(name, v)
        return float(v)

    def bool(self, name):
        v = self._over(name)
        v = v if isinstance(v, bool) else self.rng.random() < 0.5
        self._rec(name, v)
        return v

    def _any(self, depth):
        r, np = self.rng, self.np_
        if depth and r.random() < 0.3:
            v = [self._any(depth - 1) for _ in range(r.choice([1, 1, 2]))]
            return r.choice([list, tuple, lambda v: {"k%d" % i: x for i, x in enumerate(v)}])(v)
        if r.random() < 0.7:
            return r.choice([0, 1, -3, 0.5, float("inf"), "a", "", True, False, None])
        return r.choice([np.float64(1), np.str_("a"), np.int64(1), np.bool_(True), Ellipsis, b"a", 1j, Other(), np.zeros(2), np.float32(0.5), len])

    def _obj(self, tag, key):
        if tag == "number":
            return self.rng.choice([0.5, -1.0, 0.0, self.np_.float64(1), self.np_.float32(2), Other()])
        if tag in ("any", "leaf"):
            return self._any(2 if tag == "any" else 0)
        if tag in POOLS:
            pool = POOLS[tag]
            return pool[key] if tag == "word" and key < len(pool) else "k%d" % key if tag == "word" else self.rng.choice(pool)
        kinds = self.__dict__.setdefault("_objkinds", {})
        k = kinds.setdefault(tag, self.rng.choice(["int", "str", "neg"]) if tag == "label" else "str" if tag in ("str", "tok") else self.rng.choice(["str", "int"]))
        if k == "int":
            return key
        if k == "neg":
            return key * 3 - 4
        names = ["b", "a", "a b", "c", "é", "B", "x1", "", "b a b", "c c c"]
        return names[key] if key < len(names) else "k%d" % key

    def obj(self, name, tag="obj"):
        return self._obj(tag, self.rng.randrange(8))

    def np(self, v, kind="float64"):
        return getattr(self.np_, kind)(v)

    def dtype(self, name):
        return {"float": float_, "int": int_}.get(name) or getattr(self.np_, name)

    def plus(self, a, k):
        return a + k

    # -- arrays
    def list(self, name, dims, elem="float", where=None, tag="obj", distinct=False, sorted=False, bound=None, kind="list"):
        if not isinstance(dims, (list, tuple)):
            dims = (dims,)
        r = self.rng
        cnt = [0]
        total = 1
        for d in dims:
            total *= d
        if total > 4000:
            raise Reject()
        perm = None
        if distinct and elem == "obj":
            perm = r.sample(range(max(dims[0] + 2, 1)), dims[0])
        over = self._over(name)
        kinds = self._over(name + ".kind")
        at0 = lambda o, idx: None if o is None else self._dig(o, idx)

        def one(idx):
            c = cnt[0]
            cnt[0] += 1
            o = at0(over, idx)
            if elem in ("float", "nanfloat"):
                kd = at0(kinds, idx)
                if kd == 3 or (over is None and elem == "nanfloat" and r.random() < 0.25):
                    return float("nan")
                v = float(o) if isinstance(o, (int, float)) and not isinstance(o, bool) else self.num(where)
                return v
            if elem == "int":
                if bound is not None:
                    if bound[1] <= bound[0]:
                        raise Reject()
                    return o if isinstance(o, int) and bound[0] <= o < bound[1] else r.randrange(bound[0], bound[1])
                return o if isinstance(o, int) else (r.randint(0, 6) if where == "nonneg" else r.randint(-4, 6))
            if elem == "bool":
                return o if isinstance(o, bool) else r.random() < 0.5
            if perm is not None:
                return self._obj(tag, perm[c])
            return self._obj(tag, r.randrange(6))

        def rec(ds, idx):
            if not ds:
                return one(idx)
            return [rec(ds[1:], idx + [i]) for i in range(ds[0])]

        v = rec(dims, [])
        if distinct and elem != "obj" and len(set(v)) != len(v):
            if elem == "int" and bound is not None:
                if bound[1] - bound[0] < dims[0]:
                    raise Reject()
                v = r.sample(range(bound[0], bound[1]), dims[0])
            else:
                seen, out = set(), []
                for x in v:
                    while x in seen:
                        x = x + 1 if elem == "int" else float(x) + 0.5
                    seen.add(x)
                    out.append(x)
                v = out
        if sorted:
            v = sorted_(v)
        self._rec(name, v)
        return tuple(v) if kind == "tuple" else v

    def _dig(self, o, idx):
        for i in idx:
            if not isinstance(o, list) or i >= len(o):
                return None
            o = o[i]
        return o

    def ndarray(self, name, dims, elem="float", dtype=None, **kw):
        v = self.list(name, dims, elem, **kw)
        if kw.get("tag") in ("leaf", "number"):
            dims = tuple(dims) if isinstance(dims, (list, tuple)) else (dims,)
            a = self.np_.empty(dims, dtype=object)
            for idx in self.np_.ndindex(*dims):
                x = v
                for i in idx:
                    x = x[i]
                a[idx] = x
            return a
        return self.arr(v, dtype)

    def arr(self, lst, dtype=None):
        np = self.np_
        if dtype is not None:
            return np.array(lst, dtype=dtype)
        return np.array(lst)

    def rows(self, name, n, d, elem="float", where=None):
        return self.list(name, (n, d), elem, where)

    def sparse(self, name, n, d, where=None, dtype=_float):
        from pure_sklearn.utils import sparse_list

        r = self.rng
        vals = self.list(name, (n, d), "float", where)
        has = self._over(name + ".has")
        rows = []
        p = r.choice([0.2, 0.5, 0.9])
        for i in range(n):
            row, keys = {}, list(range(d))
            if r.random() < 0.5:
                r.shuffle(keys)
            for k in keys:
                h = self._dig(has, [i, k]) if has is not None else r.random() < p
                if h:
                    row[k] = vals[i][k]
            rows.append(row)
        return sparse_list(rows, size=d, dtype=dtype)

    def either(self, name, n, d, where=None):
        if self.choice(name + ".sparse", [False, True]):
            return self.sparse(name, n, d, where)
        return self.rows(name, n, d, where=where)

    # -- objects
    def stub(self, clsname, module="sklearn", **attrs):
        o = type(clsname, (Stub,), {"__module__": module})()
        o.__dict__.update(attrs)
        return o

    def attrs(self, o, **kw):
        o.__dict__.update(kw)
        return o

    def drop(self, o, name):
        del o.__dict__[name]
        return o

    def method(self, value):
        return Method(value)

    def dict(self, d):
        return dict(d)

    def pylist(self, elems, kind="list"):
        return tuple(elems) if kind == "tuple" else list(elems)

    def assume(self, fn, *args):
        if not fn(*args):
            raise Reject()

    def get(self, o, name):
        return getattr(o, name)

    def json(self, v):
        return json.dumps(v)

    def text(self, v):
        return repr(v)

    def new(self, cls, *args):
        return cls(*args)

    def make(self, fn, *args):
        return fn(*args)

    def forall(self, name, n, fn, *args):
        for i in range(n):
            if not fn(i, *args):
                raise Reject()


sorted_ = sorted


class Other:
    """An object of a class that is neither built in nor a converted model's."""

    __module__ = "sklearn.other"

    def __deepcopy__(self, memo):
        return self


class Stub:
    def __deepcopy__(self, memo):
        o = object.__new__(type(self))
        memo[id(self)] = o
        o.__dict__.update({k: copy.deepcopy(v, memo) for k, v in self.__dict__.items()})
        return o

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join("%s=%r" % kv for kv in self.__dict__.items()))


class Method:
    def __init__(self, v):
        self.v = v

    def __call__(self, *a, **k):
        return self.v

    def __repr__(self):
        return "->%r" % (self.v,)


class _Np:
    pass


def close(a, b, tol, path="result"):
    """None when equal (up to rounding), else a description."""
    import numpy as np

    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a == b and isinstance(b, (bool, int, float)) and isinstance(a, (bool, int, float)) else "%s: %r != %r" % (path, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return None
        if isinstance(a, int) and isinstance(b, int):
            return "%s: %r != %r" % (path, a, b)
        if math.isinf(a) or math.isinf(b) or a != a or b != b:
            return "%s: %r != %r" % (path, a, b)
        if abs(a - b) <= tol * max(1.0, abs(a), abs(b)):
            return None
        return "%s: %r != %r" % (path, a, b)
    if isinstance(a, (np.ndarray,)):
        a = a.tolist()
    if isinstance(b, (np.ndarray,)):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or type(a).__name__ != type(b).__name__:
            return "%s: %s instead of %s" % (path, type(a).__name__, type(b).__name__)
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = close(x, y, tol, "%s[%d]" % (path, i))
            if r:
                return r
        for k in ("size", "dtype"):
            if k in getattr(a, "__dict__", {}) or k in getattr(b, "__dict__", {}):
                if getattr(a, k, None) != getattr(b, k, None):
                    return "%s.%s: %r != %r" % (path, k, getattr(a, k, None), getattr(b, k, None))
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys %r != %r" % (path, sorted_(map(repr, a)), sorted_(map(repr, b)))
        for k in a:
            r = close(a[k], b[k], tol, "%s[%r]" % (path, k))
            if r:
                return r
        return None
    if type(a).__name__ == type(b).__name__ and hasattr(a, "__dict__") and hasattr(b, "__dict__") and not isinstance(a, type):
        return close(dict(vars(a)), dict(vars(b)), tol, path)
    if type(a) is type(b) or isinstance(a, (str, bytes)):
        try:
            return None if a == b else "%s: %r != %r" % (path, a, b)
        except Exception:
            return None if a is b else "%s: differ" % path
    return "%s: %r != %r" % (path, a, b)


def outcome(f, args):
    try:
        r = f(*args)
        return ("ok", r)
    except Reject:
        raise
    except RecursionError:
        return ("raise", "RecursionError")
    except Exception as e:
        return ("raise", type(e).__name__)


def run_trial(cls, seed, lits, over=None):
    """None, 'reject', or (description, args repr)."""
    rng = random.Random(seed)
    S = ConcWorld(rng, lits, over)
    try:
        args = cls.build(S)
    except Reject:
        return "reject", None
    if not isinstance(args, tuple):
        args = (args,)
    pre = copy.deepcopy(args)
    shown = repr(args)[:3000]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = outcome(cls.code, args)
        msg = None
        if cls.opts.get("frame", True):
            c = close(list(args), list(pre), 0.0, "args")
            if c:
                msg = "frame: an argument was changed (%s)" % c
        if msg is None and hasattr(cls, "spec"):
            s = outcome(cls.spec, copy.deepcopy(pre))
            if r[0] != s[0]:
                msg = "outcome: code %s, spec %s" % (show(r), show(s))
            elif r[0] == "raise":
                if r[1] != s[1] and not cls.opts.get("any_exception"):
                    msg = "exception: code %s, spec %s" % (r[1], s[1])
            else:
                msg = close(r[1], s[1], cls.opts.get("tol", 1e-6))
        if msg is None and r[0] == "raise" and not hasattr(cls, "spec"):
            msg = "outcome: code %s" % show(r)
        if msg is None and r[0] == "ok" and hasattr(cls, "ensures"):
            e = cls.ensures(r[1], *copy.deepcopy(pre))
            if not truth(e):
                msg = "ensures: %s" % (repr(e)[:300],)
        if msg is not None and hasattr(cls, "ambiguous"):
            try:
                if cls.ambiguous(*copy.deepcopy(pre)):
                    return "reject", None
            except Exception:
                pass
    if msg is None:
        return None, None
    return msg + "   code %s" % (show(r, True)), shown


def truth(e):
    if isinstance(e, (list, tuple)):
        return all(truth(x) for x in e)
    return bool(e)


def show(r, full=False):
    if r[0] == "raise":
        return "raises %s" % r[1]
    return "returns %s" % (repr(r[1])[:400] if full else "")


def load():
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    import importlib
    from pyvc import api

    for f in sorted(os.listdir(os.path.join(VERIF, "contracts"))):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])
    for f in sorted(os.listdir(os.path.join(VERIF, "runtime"))) if os.path.isdir(os.path.join(VERIF, "runtime")) else []:
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("runtime." + f[:-3])
    return api


def main():
    """Reads a job (JSON) on stdin, writes one JSON line per contract on stdout."""
    job = json.load(sys.stdin)
    api = load()
    lits = harvest()
    seed0 = job.get("seed", 1)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    only = job.get("only")
    for cls in api.REGISTRY:
        if cls.prop != job["property"] or (only and cls.title not in only):
            continue
        res = {"kind": "contract", "title": cls.title, "trials": 0, "rejected": 0, "fail": None}
        t0 = time.time()
        hints = job.get("hints", {}).get(cls.title, [])
        n, budget = job.get("trials", 300), job.get("seconds", 5)
        budget = budget * cls.opts.get("weight", 1)
        k = 0
        while k < n * 4 and time.time() - t0 < budget and res["trials"] < n:
            over = hints[k] if k < len(hints) else None
            sd = "%s/%s/%d" % (seed0, cls.ident, k)
            k += 1
            try:
                msg, shown = run_trial(cls, sd, lits, over)
            except Exception:
                res["error"] = traceback.format_exc()[-1500:]
                break
            if msg == "reject":
                res["rejected"] += 1
                continue
            res["trials"] += 1
            if msg:
                res["fail"] = {"what": msg, "args": shown, "seed": sd, "over": over}
                break
        res["seconds"] = round(time.time() - t0, 2)
        out.write(json.dumps(res) + "\n")
        out.flush()
    for fn in api.RUNTIME:
        if fn.prop != job["property"] or (only and fn.title not in only):
            continue
        res = {"kind": "runtime", "title": fn.title, "trials": 0, "rejected": 0, "fail": None}
        t0 = time.time()
        n, budget = fn.opts.get("trials", job.get("rt_trials", 40)), job.get("rt_seconds", 20)
        budget = budget * fn.opts.get("weight", 1)
        n = n * job.get("rt_scale", 1)
        k = 0
        while k < n and time.time() - t0 < budget:
            sd = "%s/%s/%d" % (seed0, fn.ident, k)
            k += 1
            try:
                msg = run_runtime(fn, sd)
            except Reject:
                res["rejected"] += 1
                continue
            except Exception as e:
                if not any(f.filename.startswith(REPO + "/") for f in traceback.extract_tb(e.__traceback__)):
                    res["error"] = traceback.format_exc()[-1500:]
                    break
                msg = "the code under test raises: " + traceback.format_exc()[-1500:]
            res["trials"] += 1
            if msg:
                res["fail"] = {"what": str(msg)[:3000], "seed": sd}
                break
        res["seconds"] = round(time.time() - t0, 2)
        out.write(json.dumps(res) + "\n")
        out.flush()


def run_runtime(fn, sd):
    import zlib

    import numpy as np

    rng = random.Random(sd)
    np.random.seed(zlib.crc32(sd.encode()))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(rng)


def replay(path):
    r = json.load(open(path))
    api = load()
    lits = harvest()
    for cls in api.REGISTRY:
        if cls.ident == r["contract"]:
            msg, shown = run_trial(cls, r["seed"], lits, r.get("over"))
            print("input:", shown)
            print("outcome:", msg)
            return 1 if msg and msg != "reject" else 0
    for fn in api.RUNTIME:
        if fn.ident == r["contract"]:
            msg = run_runtime(fn, r["seed"])
            print("outcome:", msg)
            return 1 if msg else 0
    print("no such contract")
    return 2


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    main()
