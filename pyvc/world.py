"""Symbolic inputs for contracts: every dimension, number, label and key is universally
quantified, subject only to the preconditions the contract's builder states."""
import z3

from . import interp as I
from . import logic
from .values import *
from .values import FIN, NAN


class Reject(Exception):
    pass


def fresh_fn(name, *sorts):
    return z3.Function("in!" + name, *sorts) if len(sorts) > 1 else z3.Const("in!" + name, sorts[0])


_float = float
float_, int_ = float, int


class SymWorld:
    symbolic = True

    def __init__(self, ip, choices):
        self.ip = ip
        self.choices = choices  # name -> option index fixed for this run
        self.open = None  # (name, n) of a choice not fixed yet
        self.pre = []  # preconditions (z3)
        self.inputs = {}  # name -> description used to turn a model into an input
        self.names = set()
        self.prefix = []  # (index, length) of the enclosing each()
        self.prefixes = {}

    def _name(self, name):
        if name in self.names:
            raise ValueError("duplicate input %s" % name)
        self.names.add(name)
        return name

    def choice(self, name, options):
        if name not in self.choices:
            raise OpenChoice(name, len(options))
        k = self.choices[name]
        self.inputs[name] = ("choice", k)
        if name not in self.names:
            self.names.add(name)
        return options[k]

    # -- scalars
    def _term(self, name, sort):
        """The input `name`: a constant, or a function of the enclosing each()."""
        self._name(name)
        if not self.prefix:
            return z3.Const("in!" + name, sort), None
        f = z3.Function("in!" + name, *([INT] * len(self.prefix)), sort)
        return f(*[i for i, n in self.prefix]), f

    def _require(self, f, idx, formula):
        """formula (over the index constants) holds of every application of f; a plain
        precondition when f is None."""
        formula = simp(formula)
        if f is None:
            self.pre.append(formula)
            return
        idx = [i for i, n in self.prefix] + list(idx)

        def fn(*args):
            return z3.substitute(formula, *zip(idx, args[:len(idx)]))

        logic.AXIOMS.setdefault(f.name(), []).append(fn)

    def _record(self, name, kind, *rest):
        self.inputs[name] = (kind,) + rest
        self.prefixes[name] = list(self.prefix)

    def dim(self, name, lo=1, hi=None):
        e, f = self._term(name, INT)
        self._require(f, [], e >= lo)
        if hi is not None:
            self._require(f, [], e <= zint(hi))
        self._record(name, "int", e)
        if f is None:
            self.ip.dims.append(e)
        return SInt(e)

    def int(self, name, lo=None, hi=None):
        e, f = self._term(name, INT)
        if lo is not None:
            self._require(f, [], e >= zint(lo))
        if hi is not None:
            self._require(f, [], e <= zint(hi))
        self._record(name, "int", e)
        return SInt(e)

    def float(self, name, where=None, nan=False):
        e, f = self._term(name, REAL)
        self._record(name, "real", e)
        if where is not None:
            self._require(f, [], PRED[where](e))
        if nan:
            k, g = self._term(name + ".kind", INT)
            self._require(g, [], z3.Or(k == FIN, k == NAN))
            return SFl(e, k)
        return SFl(e)

    def bool(self, name):
        e, f = self._term(name, BOOL)
        self._record(name, "bool", e)
        return SBool(e)

    def obj(self, name, tag="obj"):
        e, f = self._term(name, Obj)
        self._record(name, "obj", e, tag)
        return SObj(e, TEXTS.get(tag, tag))

    def np(self, v, kind="float64"):
        return NpS(v, kind)

    def dtype(self, name):
        """A type: float, int, or one of numpy."""
        if name in ("float", "int"):
            return {"float": float_, "int": int_}[name]
        return I.TypeVal("numpy", name, float_ if name == "float64" else None)

    def plus(self, a, k):
        return mkint(zint(a) + zint(k))

    def each(self, name, n, build, kind="list"):
        """A list of n inputs made by build(S); every input inside is indexed."""
        i = self.ip.fresh()
        self.prefix.append((i, zint(n)))
        try:
            v = build(self)
        finally:
            self.prefix.pop()
        if const(zint(n)) is not None:
            from .seqs import sub

            return ListVal(Ex([sub(v, [(i, z3.IntVal(p))]) for p in range(const(zint(n)))]), kind)
        return ListVal(Tab(zint(n), i, v), kind)

    # -- arrays
    def _elem(self, name, idx, elem, where, tag, bound=None):
        pre = [i for i, n in self.prefix]
        sorts = [INT] * (len(pre) + len(idx))
        at = pre + list(idx)
        if elem in ("float", "nanfloat"):
            f = z3.Function("in!" + name, *sorts, REAL)
            if where is not None:
                self._require(f, idx, PRED[where](f(*at)))
            k = None
            if elem == "nanfloat":
                g = z3.Function("in!%s.kind" % name, *sorts, INT)
                self._require(g, idx, z3.Or(g(*at) == FIN, g(*at) == NAN))
                k = g(*at)
                self._record(name + ".kind", "fn", g, None)
            return f, SFl(f(*at), k)
        if elem == "int":
            f = z3.Function("in!" + name, *sorts, INT)
            if bound is not None:
                self._require(f, idx, z3.And(f(*at) >= zint(bound[0]), f(*at) < zint(bound[1])))
            elif where is not None:
                self._require(f, idx, PRED[where](f(*at)))
            return f, SInt(f(*at))
        if elem == "bool":
            f = z3.Function("in!" + name, *sorts, BOOL)
            return f, SBool(f(*at))
        f = z3.Function("in!" + name, *sorts, Obj)
        return f, SObj(f(*at), TEXTS.get(tag, tag))

    def list(self, name, dims, elem="float", where=None, tag="obj", distinct=False, sorted=False, bound=None, kind="list"):
        """Nested lists of the given dimensions."""
        self._name(name)
        if not isinstance(dims, (list, tuple)):
            dims = (dims,)
        ns = [zint(d) for d in dims]
        idx = [self.ip.fresh() for _ in ns]
        f, v = self._elem(name, idx, elem, where, tag, bound)
        self._record(name, "array", f, ns, elem)
        pre = [i for i, n in self.prefix]
        if distinct:
            inv = z3.Function("in!%s.inv" % name, *([INT] * len(pre)), f.range(), INT)
            i = idx[0]
            self._require(f, [i], z3.Implies(z3.And(i >= 0, i < ns[0]), inv(*(pre + [f(*(pre + [i]))])) == i))
            logic.INVERSE[f.name()] = (inv, pre, ns[0])
        if sorted:
            # strictly increasing numbers, instantiated against the first element
            i = idx[0]
            z = z3.IntVal(0)
            self._require(f, [i], z3.Implies(z3.And(z < i, i < ns[0]), f(*(pre + [z])) < f(*(pre + [i]))))
        for n, i in zip(reversed(ns), reversed(idx)):
            if const(n) is not None:
                from .seqs import sub

                v = ListVal(Ex([sub(v, [(i, z3.IntVal(p))]) for p in range(const(n))]), kind)
            else:
                v = ListVal(Tab(n, i, v), kind)
        return v

    def ndarray(self, name, dims, elem="float", dtype=None, **kw):
        return NdArr(self.list(name, dims, elem, **kw), {"dtype": dtype} if dtype else {})

    def arr(self, lst, dtype=None):
        return NdArr(lst, {"dtype": dtype} if dtype else {})

    def tree(self, name, d, K, where=None):
        """A fitted decision tree's arrays: N nodes, children after their parent, split
        features below d, K values per node (value has the shape (N, 1, K)); where="counts":
        none of them negative, some positive."""
        counts, where = where == "counts", "nonneg" if where == "counts" else where
        N = self.dim(name + ".N", 1)
        pre = [i for i, n in self.prefix]
        L = self.list(name + ".left", N, "int")
        R = self.list(name + ".right", N, "int")
        F = self.list(name + ".feature", N, "int")
        T = self.list(name + ".threshold", N)
        V = self.list(name + ".value", (N, 1, K), "float", where)
        fl, fr, ff, ft = [self.inputs["%s.%s" % (name, x)][1] for x in ("left", "right", "feature", "threshold")]
        i = self.ip.fresh()
        at = pre + [i]
        n = N.e
        leaf = z3.And(fl(*at) == -1, fr(*at) == -1)
        node = z3.And(fl(*at) > i, fl(*at) < n, fr(*at) > i, fr(*at) < n, fl(*at) != fr(*at))
        rng = z3.And(i >= 0, i < n)
        for f in (fl, fr):
            self._require(f, [i], z3.Implies(rng, z3.Or(leaf, node)))
        self._require(ff, [i], z3.Implies(rng, z3.If(fl(*at) == -1, ff(*at) == -2, z3.And(ff(*at) >= 0, ff(*at) < zint(d)))))
        self._require(ft, [i], z3.Implies(z3.And(rng, fl(*at) == -1), ft(*at) == -2))
        if counts:
            # some training weight reached every node
            logic.POSITIVE["in!%s.value" % name] = lambda m, *a: z3.substitute(z3.And(i >= 0, i < n), (i, a[-3]), *zip(pre, a)) if m.eq(zint(K)) else None
        return self.stub("Tree", children_left=self.arr(L), children_right=self.arr(R), feature=self.arr(F),
                         threshold=self.arr(T), value=self.arr(V), node_count=N)

    def rows(self, name, n, d, elem="float", where=None):
        return self.list(name, (n, d), elem, where)

    def sparse(self, name, n, d, where=None, dtype=_float):
        """A sparse_list of n rows with d columns (any subset of keys present)."""
        self._name(name)
        if self.prefix:
            raise Unsupported("sparse rows inside each()")
        i, k = self.ip.fresh(), self.ip.fresh()
        has = z3.Function("in!%s.has" % name, INT, INT, BOOL)
        val = z3.Function("in!" + name, INT, INT, REAL)
        if where is not None:
            self._require(val, [i, k], PRED[where](val(i, k)))
        bound = zint(d)
        h = z3.And(k >= 0, k < bound, has(i, k))
        m = SMap(k, h, I.norm_val(h, SFl(val(i, k))), bound)
        self._record(name, "sparse", has, val, [zint(n), bound])
        cls = self.ip.getattr(self.ip.load("pure_sklearn.utils"), "sparse_list")
        return ListVal(Tab(zint(n), i, DictVal(m)), "list", cls, {"size": d, "dtype": dtype})

    def either(self, name, n, d, where=None):
        """Dense or sparse rows."""
        if self.choice(name + ".sparse", [False, True]):
            return self.sparse(name, n, d, where)
        return self.rows(name, n, d, where=where)

    # -- objects
    def stub(self, clsname, module="sklearn", **attrs):
        import types

        attrs = {k: self.ip.contract_fn(v) if isinstance(v, types.FunctionType) else v for k, v in attrs.items()}
        return ObjVal(I.LibClass(clsname), attrs)

    def attrs(self, o, **kw):
        o.attrs.update(kw)
        return o

    def drop(self, o, name):
        del o.attrs[name]
        return o

    def get(self, o, name):
        return o.attrs[name]

    def json(self, v):
        """The JSON text of v."""
        def conv(v):
            return self.dict({k: conv(x) for k, x in v.items()}) if isinstance(v, dict) else v

        return ObjVal(I.LibClass("json"), {"json": conv(v)})

    def text(self, v):
        """A float as text."""
        return SObj(z3.Function("repr_of_real", REAL, Obj)(v.e), "str")

    def new(self, cls, *args):
        """An object of a class of the contract file."""
        return self.ip.call(self.ip.contract_fn(cls), list(args), {})

    def dict(self, d):
        return DictVal(CMap(d))

    def pylist(self, elems, kind="list"):
        if kind == "tuple":
            return tuple(elems)
        return ListVal(Ex(list(elems)))

    def assume(self, fn, *args):
        """Precondition computed by a plain Python function of the contract."""
        ip = self.ip
        f = ip.contract_fn(fn)
        outs = ip.explore(lambda: ip.truth(ip.call(f, list(args), {})), assume=self.pre)
        good = []
        for o in outs:
            if o.kind == "ok" and o.value:
                good.append(z3.And(o.conds) if o.conds else z3.BoolVal(True))
        self.pre.append(simp(z3.Or(good)))

    def make(self, fn, *args):
        """The value a plain Python function of the contract computes (on one path)."""
        ip = self.ip
        f = ip.contract_fn(fn)
        outs = [o for o in ip.explore(lambda: ip.call(f, list(args), {}), assume=self.pre)]
        if len(outs) != 1 or outs[0].kind != "ok":
            raise Unsupported("input made on several paths")
        return outs[0].value

    def method(self, value):
        return I.Builtin("stub method", lambda ip, a, k: value)

    def forall(self, name, n, fn, *args):
        """fn(i, *args) holds for 0 <= i < n: a precondition about the array `name`,
        instantiated wherever an element of it occurs."""
        ip = self.ip
        f = ip.contract_fn(fn)
        i = z3.Int("in!forall%d" % len(self.pre))
        rng = z3.And(i >= 0, i < zint(n))
        outs = ip.explore(lambda: ip.truth(ip.call(f, [SInt(i)] + list(args), {})), assume=self.pre + [rng])
        good = [z3.And(o.conds) if o.conds else z3.BoolVal(True) for o in outs if o.kind == "ok" and o.value]
        body = simp(z3.Implies(rng, z3.Or(good)))
        pre = [p for p, _ in self.prefix]
        for nm in name if isinstance(name, (list, tuple)) else [name]:
            logic.AXIOMS.setdefault("in!" + nm, []).append(
                lambda *t: z3.substitute(body, *zip(pre + [i], t)))


class OpenChoice(Exception):
    def __init__(self, name, n):
        self.name, self.n = name, n


# kinds of text that only differ in the concrete examples drawn
TEXTS = {"word": "str", "piece": "str"}

PRED = {
    "pos": lambda e: e > 0,
    "nonneg": lambda e: e >= 0,
    "nonzero": lambda e: e != 0,
    "prob": lambda e: z3.And(e > 0, e <= 1),
    "unit": lambda e: z3.And(e >= 0, e <= 1),
}
