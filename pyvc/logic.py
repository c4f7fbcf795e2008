"""Aggregates (sums, maxima, searches, folds... over symbolic ranges), their facts, and
the prover.

An aggregate over a range is an application  name(n, p1..pk)  of an uninterpreted
function whose definition (the body, with bound constants B! and parameters P!) is kept
in a table.  Two applications of the same kind are shown equal by proving their lengths
and bodies equal at a fresh index (pointwise congruence); everything else known about
them is a fact instantiated at the index terms of the query."""
import itertools
import time

import z3

from .values import BOOL, INT, REAL, Obj, Unsupported, const, simp

B_PREFIX, P_PREFIX = "B!", "P!"
LIFT = ("ix!", "st!")


class AggDef:
    __slots__ = ("kind", "name", "decl", "bvs", "params", "bodies", "ranged", "nextra", "cache", "aux")

    def __repr__(self):
        return "%s/%s%s" % (self.name, self.bvs, self.bodies)


AGGS = {}  # decl name -> AggDef
_keys = {}
_keep = []  # keeps z3 terms alive so that ids stay unique
POSITIVE = {}  # decl name -> fn(length, *args) -> condition under which the sum along its last argument is positive
AXIOMS = {}  # decl name -> [fn(*args) -> z3 Bool], facts about input data
STATS = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "facts": 0}
LIMITS = {"timeout": 4000, "nl": True, "rate": 3000, "depth": 5, "canon": True, "shares": False}


class Node:
    """What the traversals need to know about a term, computed once per term."""
    __slots__ = ("e", "i", "ch", "app", "kind", "name", "sort", "_consts", "nl", "agg", "height")

    def __init__(self, e):
        self.e, self.i = e, e.get_id()
        self.app = z3.is_app(e)
        if self.app:
            d = e.decl()
            self.kind = d.kind()
            self.name = d.name() if self.kind == z3.Z3_OP_UNINTERPRETED else None
            self.ch = tuple(node(c) for c in e.children())
        else:
            self.kind = self.name = None
            self.ch = ()
        self.sort = e.sort()
        self.height = 1 + max([c.height for c in self.ch], default=0)
        self._consts = None
        self.agg = None
        self.nl = any(c.nl for c in self.ch)
        if not self.nl and self.app and self.sort == REAL:
            if self.kind == z3.Z3_OP_MUL:
                self.nl = sum(not z3.is_rational_value(c.e) for c in self.ch) > 1
            elif self.kind == z3.Z3_OP_DIV:
                self.nl = not z3.is_rational_value(self.ch[1].e)

    @property
    def consts(self):
        """Uninterpreted constants, in depth-first order."""
        if self._consts is None:
            if self.name is not None and not self.ch:
                self._consts = {self.i: self.e}
            elif len(self.ch) == 1:
                self._consts = self.ch[0].consts
            else:
                r = {}
                for c in self.ch:
                    r.update(c.consts)
                self._consts = r
        return self._consts


_nodes = {}


def node(e):
    i = e.get_id()
    n = _nodes.get(i)
    if n is None:
        n = Node(e)
        _nodes[i] = n
    return n


def reset():
    AGGS.clear()
    _nodes.clear()
    _nlmemo.clear()
    ARGPOS.clear()
    _signs.clear()
    WIT.clear()
    _fact_cache.clear()
    _keys.clear()
    AXIOMS.clear()
    POSITIVE.clear()
    INVERSE.clear()
    _cache.clear()
    _proved.clear()
    _decided.clear()
    _canon.clear()
    _cmemo.clear()
    _reps.clear()
    _shape.clear()
    _acs.clear()
    del _keep[:]


def keep(*es):
    _keep.extend(es)


def consts_of(exprs):
    """Uninterpreted constants of the terms, in a deterministic order."""
    if len(exprs) == 1:
        return list(node(exprs[0]).consts.values())
    r = {}
    for e in exprs:
        r.update(node(e).consts)
    return list(r.values())


def liftable(exprs, bvs=()):
    names = {b.decl().name() for b in bvs}
    return [
        c
        for c in consts_of(exprs)
        if c.decl().name().startswith(LIFT) and c.decl().name() not in names
    ]


def has_const(exprs, c):
    i = c.get_id()
    node(c)
    return any(i in node(e).consts for e in exprs)


AC = {"bit_and", "bit_or", "bit_xor"}
_shape = {}
_acs = {}


def shape_of(e):
    """A hash of the term that does not depend on the order of commutative arguments."""
    i = e.get_id()
    if i not in _shape:
        keep(e)
        if not z3.is_app(e):
            h = hash(e.sexpr())
        else:
            ch = [shape_of(c) for c in e.children()]
            if e.decl().name() in AC or e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ):
                ch.sort()
            h = hash((e.decl().name(), str(e) if not ch else "", tuple(ch)))
        _shape[i] = h
    return _shape[i]


def ac_args(e, name):
    if z3.is_app(e) and e.decl().name() == name and e.num_args() == 2:
        return ac_args(e.arg(0), name) + ac_args(e.arg(1), name)
    return [e]


def ac_build(f, args):
    """f over the arguments, which it may reorder and regroup; zeros and repetitions go."""
    name = f.name()
    args = sorted(args, key=shape_of)
    out = []
    for a in args:
        if name != "bit_and" and z3.is_int_value(a) and a.as_long() == 0:
            continue
        if out and out[-1].eq(a):
            if name == "bit_xor":
                out.pop()
            continue
        out.append(a)
    if not out:
        return z3.IntVal(0)
    r = out[0]
    for a in out[1:]:
        r = f(r, a)
    return r


def ac_sort(e):
    """Arguments of the bit operations in an order that depends on their shape alone."""
    ops = [u for u in subterms([e]).values() if z3.is_app(u) and u.num_args() == 2 and u.decl().name() in AC]
    if not ops:
        return e

    def go(e):
        i = e.get_id()
        if i not in _acs:
            keep(e)
            r = e
            if z3.is_app(e) and e.num_args():
                nm = e.decl().name()
                if nm in AC and e.num_args() == 2:
                    r = ac_build(e.decl(), [y for x in ac_args(e, nm) for y in ac_args(go(x), nm)])
                else:
                    ch = [go(c) for c in e.children()]
                    if any(not a.eq(b) for a, b in zip(ch, e.children())):
                        r = rebuild(e, ch) if e.decl().kind() != z3.Z3_OP_UNINTERPRETED else e.decl()(*ch)
            keep(r)
            _acs[i] = r
        return _acs[i]

    return go(e)


def mk_agg(kind, rsort, bvs, bodies, n=None, extra=(), aux=None):
    """Application of the aggregate with bound constants bvs and the given bodies.
    n: length for ranged aggregates (first argument); extra: further arguments
    (positions, initial states) that follow the parameters."""
    bodies = [simp(b) for b in bodies]
    params = liftable(bodies, bvs)
    canon_b = [z3.Const("%s%s!%d" % (B_PREFIX, b.sort(), j), b.sort()) for j, b in enumerate(bvs)]
    canon_p = [z3.Const("%s%s!%d" % (P_PREFIX, p.sort(), j), p.sort()) for j, p in enumerate(params)]
    sub = list(zip(bvs, canon_b)) + list(zip(params, canon_p))
    cb = [ac_sort(z3.substitute(b, *sub) if sub else b) for b in bodies]
    key = (kind, str(rsort), n is not None, len(extra), tuple(b.get_id() for b in cb),
           tuple(str(b.sort()) for b in bvs), tuple(str(p.sort()) for p in params), aux)
    d = _keys.get(key)
    if d is None:
        d = AggDef()
        d.kind, d.bvs, d.params, d.bodies = kind, canon_b, canon_p, cb
        d.ranged, d.nextra, d.aux = n is not None, len(extra), aux
        d.name = "%s!%d" % (kind, len(_keys))
        dom = ([INT] if n is not None else []) + [p.sort() for p in params] + [x.sort() for x in extra]
        d.decl = z3.Function(d.name, *dom, rsort)
        d.cache = {}
        keep(*cb, *canon_b, *canon_p)
        _keys[key] = d
        AGGS[d.name] = d
    args = ([n] if n is not None else []) + params + list(extra)
    return d.decl(*args)


def agg_of(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return AGGS.get(e.decl().name())
    return None


def parts(e, d=None):
    """(n, params, extra) of an aggregate application."""
    d = d or agg_of(e)
    ch = e.children()
    n = None
    if d.ranged:
        n, ch = ch[0], ch[1:]
    k = len(d.params)
    return n, ch[:k], ch[k:]


def body_at(e, idx, d=None, which=0):
    """Body of the application e at the given bound terms."""
    d = d or agg_of(e)
    _, ps, _ = parts(e, d)
    if not isinstance(idx, (list, tuple)):
        idx = [idx]
    sub = list(zip(d.bvs, idx)) + list(zip(d.params, ps))
    r = z3.substitute(d.bodies[which], *sub) if sub else d.bodies[which]
    return r


# ------------------------------------------------------------------ constructors
def factor_out(body, bv):
    """body == c * rest with c free of bv (products and quotients)."""
    if z3.is_app(body):
        k = body.decl().kind()
        if k == z3.Z3_OP_MUL:
            ins, outs = [], []
            for ch in body.children():
                (ins if has_const([ch], bv) else outs).append(ch)
            if outs:
                c = outs[0] if len(outs) == 1 else z3.Product(outs)
                r = z3.RealVal(1) if body.sort() == REAL else z3.IntVal(1)
                if ins:
                    r = ins[0] if len(ins) == 1 else z3.Product(ins)
                c2, r2 = factor_out(r, bv) if ins else (None, r)
                return (c if c2 is None else c * c2), r2
        if k == z3.Z3_OP_DIV and body.sort() == REAL:
            a, b = body.children()
            if not has_const([b], bv):
                c, r = factor_out(a, bv)
                return ((1 / b) if c is None else c / b), r
        if k == z3.Z3_OP_UMINUS:
            c, r = factor_out(body.children()[0], bv)
            return (z3.RealVal(-1) if body.sort() == REAL else z3.IntVal(-1)) * (1 if c is None else c), r
    return None, body


def conjuncts(g):
    g = simp(g)
    if z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c)]
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        return [x for c in g.arg(0).children() for x in conjuncts(simp(z3.Not(c)))]
    return [g]


def solve_eq(conjs, x):
    """A term e free of x such that the conjuncts force x == e, or None."""
    for c in conjs:
        if not z3.is_eq(c):
            continue
        a, b = c.children()
        if a.sort() != x.sort():
            continue
        for u, v in ((a, b), (b, a)):
            if u.eq(x) and not has_const([v], x):
                return v
        if x.sort() == INT and has_const([c], x):
            d = simp(a - b - x)
            if not has_const([d], x):
                return simp(-d)
            d = simp(a - b + x)
            if not has_const([d], x):
                return d
    return None


INVERSE = {}  # name of an input without repeated elements -> (its inverse, prefix constants, length)


def solve_in(conjs, x, n):
    """As solve_eq, for x known to be in [0, n): an element of an input without
    repetitions is at the place its inverse names."""
    e = solve_eq(conjs, x)
    if e is not None or not INVERSE:
        return e
    for c in conjs:
        if not z3.is_eq(c):
            continue
        for u, v in (c.children(), reversed(c.children())):
            if not (z3.is_app(u) and u.decl().name() in INVERSE) or has_const([v], x):
                continue
            inv, pre, size = INVERSE[u.decl().name()]
            args = u.children()
            if args[-1].eq(x) and not has_const(args[:-1], x) \
                    and simp(z3.substitute(size, *zip(pre, args)) if pre else size).eq(simp(n)):
                return inv(*args[:-1], v)
    return None


def guard_of(body):
    """(g, v) when body is `v if g else 0`."""
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE:
        g, a, b = body.children()
        z = lambda t: (z3.is_rational_value(t) or z3.is_int_value(t)) and t.as_fraction() == 0 if z3.is_rational_value(t) else z3.is_int_value(t) and t.as_long() == 0
        if z(b):
            r = guard_of(a)
            return (z3.And(g, r[0]), r[1]) if r else (g, a)
        if z(a):
            r = guard_of(b)
            return (z3.And(z3.Not(g), r[0]), r[1]) if r else (z3.Not(g), b)
    return None


def mk_sum(n, bv, body):
    if const(simp(n)) == 0:
        return z3.RealVal(0) if body.sort() == REAL else z3.IntVal(0)
    body = simp(body)
    gv = guard_of(body)
    if gv is not None:
        e = solve_in(conjuncts(gv[0]), bv, n)
        if e is not None:
            zero = z3.RealVal(0) if body.sort() == REAL else z3.IntVal(0)
            return simp(z3.If(z3.And(e >= 0, e < n, z3.substitute(gv[0], (bv, e))), z3.substitute(gv[1], (bv, e)), zero))
    if not has_const([body], bv):
        # a constant summand
        if body.sort() == REAL:
            return z3.If(n > 0, z3.ToReal(n) * body, z3.RealVal(0))
        return z3.If(n > 0, n * body, z3.IntVal(0))
    if const(simp(n)) is not None and const(simp(n)) <= 3:
        return z3.Sum([z3.substitute(body, (bv, z3.IntVal(t))) for t in range(const(simp(n)))])
    c, r = factor_out(body, bv)
    if c is not None and not (body.sort() == INT and const(simp(c)) is None):
        return simp(c) * mk_agg("sum", body.sort(), [bv], [r], n=n)
    return mk_agg("sum", body.sort(), [bv], [body], n=n)


def indicator(e):
    """(n, bound variable, condition) of a sum counting where a condition holds."""
    d = agg_of(e)
    if d is None or d.kind not in ("sum", "ksum") or e.sort() != INT:
        return None
    bv = fresh_ix(d.bvs[0].sort(), "c")
    b = simp(body_at(e, bv, d))
    n, _, _ = parts(e, d)

    def cond(b):
        c = const(b)
        if c in (0, 1):
            return z3.BoolVal(c == 1)
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
            x, y = cond(b.arg(1)), cond(b.arg(2))
            if x is not None and y is not None:
                return simp(z3.If(b.arg(0), x, y))
        return None

    c = cond(b)
    return None if c is None else (n, bv, c)


def count_eq(a, b):
    """a == b over integers; a count compared with 0 or with everything becomes a quantifier."""
    for x, y in ((a, b), (b, a)):
        if agg_of(x) is None:
            continue
        r = indicator(x)
        if r is None:
            continue
        n, bv, c = r
        if const(simp(y)) == 0:
            return z3.Not(mk_any(n, bv, c) if n is not None else mk_kany(bv, TRUE_, c))
        if n is not None and simp(y).eq(simp(n)):
            return z3.And(n >= 0, z3.Not(mk_any(n, bv, z3.Not(c))))
    return a == b


def count_lt(a, b):
    """The condition a < b when a counts within the first b indices, else None."""
    r = indicator(a) if agg_of(a) is not None else None
    if r is None or r[0] is None or not simp(b).eq(simp(r[0])):
        return None
    return mk_any(r[0], r[1], z3.Not(r[2]))


def count_pos(a):
    """The condition a > 0 when a is a count, else None."""
    r = indicator(a) if agg_of(a) is not None else None
    if r is None:
        return None
    n, bv, c = r
    return mk_any(n, bv, c) if n is not None else mk_kany(bv, TRUE_, c)


TRUE_ = z3.BoolVal(True)


def by_place(has, body, bv, zero):
    """A sum over the elements of an input without repetitions, as a sum over its places."""
    if not INVERSE:
        return None
    cjs = conjuncts(simp(has))
    for c in cjs:
        if not z3.is_eq(c):
            continue
        for u, v in (c.children(), reversed(c.children())):
            if not (v.eq(bv) and z3.is_app(u) and u.decl().name() in INVERSE):
                continue
            inv, pre, size = INVERSE[u.decl().name()]
            args = u.children()
            at = args[-1]
            if has_const(args[:-1], bv) or not at.eq(inv(*args[:-1], bv)):
                continue
            n = simp(z3.substitute(size, *zip(pre, args)) if pre else size)
            inside = [simp(at >= 0), simp(at < n)]
            if all(any(x.eq(y) for y in cjs) for x in inside):
                j = fresh_ix()
                el = z3.substitute(u, (at, j))
                t = z3.If(z3.And([x for x in cjs if x is not c and not any(x.eq(y) for y in inside)]), body, zero)
                t = z3.substitute(t, *[(y, TRUE_) for y in inside], (c, TRUE_), (at, j))
                return mk_sum(n, j, z3.substitute(t, (bv, el)))
    return None


def mk_ksum(bv, has, body):
    """Sum over the keys of a dict (a finite set given by has)."""
    zero = z3.RealVal(0) if body.sort() == REAL else z3.IntVal(0)
    body = simp(body)
    gv = guard_of(body) or (z3.BoolVal(True), body)
    e = solve_eq(conjuncts(z3.And(has, gv[0])), bv)
    if e is not None:
        return simp(z3.If(z3.substitute(z3.And(has, gv[0]), (bv, e)), z3.substitute(gv[1], (bv, e)), zero))
    r = by_place(has, body, bv, zero)
    if r is not None:
        return r
    c, r = factor_out(body, bv)
    if c is not None and not (body.sort() == INT and const(simp(c)) is None):
        return simp(c) * mk_agg("ksum", body.sort(), [bv], [z3.If(has, r, zero)], aux="fin")
    return mk_agg("ksum", body.sort(), [bv], [z3.If(has, body, zero)], aux="fin")


def mk_any(n, bv, cond):
    cond = simp(cond)
    if z3.is_false(cond):
        return z3.BoolVal(False)
    if not has_const([cond], bv):
        return z3.And(n > 0, cond)
    e = solve_in(conjuncts(cond), bv, n)
    if e is not None:
        return simp(z3.And(e >= 0, e < n, z3.substitute(cond, (bv, e))))
    if const(simp(n)) is not None and const(simp(n)) <= 3:
        return z3.Or([z3.substitute(cond, (bv, z3.IntVal(t))) for t in range(const(simp(n)))])
    return mk_agg("any", BOOL, [bv], [cond], n=n)


def mk_kany(bv, has, cond):
    cond = simp(z3.And(has, cond))
    if z3.is_false(cond):
        return cond
    e = solve_eq(conjuncts(cond), bv)
    if e is not None:
        return simp(z3.substitute(cond, (bv, e)))
    return mk_agg("kany", BOOL, [bv], [cond])


def mk_where(kind, n, bv, cond):
    """First or last place below n where cond holds (meaningful only if there is one)."""
    e = solve_in(conjuncts(simp(cond)), bv, n)
    return simp(e) if e is not None else mk_agg(kind, INT, [bv], [cond], n=n)


# ------------------------------------------------------------------ facts
EXP = z3.Function("EXP", REAL, REAL)
LOG = z3.Function("LOG", REAL, REAL)
SQRT = z3.Function("SQRT", REAL, REAL)
F32 = z3.Function("F32", REAL, REAL)
EXP_MAX = z3.Q(*(709.782712893384).as_integer_ratio())  # exp overflows above it
EXP_MIN = z3.RealVal(-700)
F32_MAX = z3.RealVal(340282356779733642748073463979561713663)  # largest real that packs


def const_real(e):
    return e.as_fraction() if z3.is_rational_value(e) else None


def _math_facts(nodes):
    out = []
    exps = []
    for n in nodes:
        if n.name not in ("EXP", "LOG", "SQRT"):
            continue
        t, x = n.e, n.ch[0].e
        if n.name == "EXP":
            exps.append((t, x))
            out += _once(("exp", n.i), lambda: [t >= 0, z3.Implies(x >= EXP_MIN, t > 0), z3.Implies(x == 0, t == 1),
                                                 z3.Implies(x <= 0, t <= 1), z3.Implies(x >= 0, t >= 1)])
        elif n.name == "LOG":
            out += _once(("log", n.i), lambda: [z3.Implies(x == 1, t == 0), z3.Implies(z3.And(x > 0, x <= 1), t <= 0),
                                                 z3.Implies(x >= 1, t >= 0)])
        else:
            out += _once(("sqrt", n.i), lambda: [t >= 0, z3.Implies(x > 0, t > 0), z3.Implies(x == 0, t == 0),
                                                  z3.Implies(x >= 0, t * t == x)])
    if exps:
        # t * exp(y) is exp(log t + y)
        logs = {n.ch[0].i: n.e for n in nodes if n.name == "LOG"}
        for n in nodes:
            if n.kind != z3.Z3_OP_MUL or not logs:
                continue
            es = [c for c in n.ch if c.name == "EXP"]
            if len(es) != 1 or any(c.i not in logs for c in n.ch if c.name != "EXP"):
                continue
            ts = [c for c in n.ch if c.name != "EXP"]
            s = simp(z3.Sum([es[0].ch[0].e] + [logs[c.i] for c in ts]))
            node(s)
            out += _once(("logexp", n.i), lambda: [z3.Implies(z3.And([c.e > 0 for c in ts] + [q]), r) for q, r in (
                (s == 0, n.e == 1), (s <= 0, n.e <= 1), (s >= 0, n.e >= 1))])
    for (a, x), (b, y) in itertools.combinations(exps[:8], 2):
        out += _once(("exp2", a.get_id(), b.get_id()),
                     lambda: [z3.Implies(x <= y, a <= b), z3.Implies(y <= x, b <= a)]
                     + ([a * b == 1] if const_real(simp(x + y)) == 0 else []))
    return out


_fact_cache = {}


def _once(key, fn):
    """Simplified facts, built once per key (the key's terms are kept alive by the node
    table)."""
    r = _fact_cache.get(key)
    if r is None:
        r = []
        for f in fn():
            f = simp(f)
            if not z3.is_true(f):
                node(f)
                r.append(f)
        _fact_cache[key] = r
    return r


def subnodes(exprs, acc=None):
    acc = {} if acc is None else acc
    stack = [node(e) for e in exprs]
    while stack:
        n = stack.pop()
        if n.i in acc:
            continue
        acc[n.i] = n
        stack.extend(n.ch)
    return acc


def subterms(exprs):
    return {i: n.e for i, n in subnodes(exprs).items()}


IX_NAMES = ("first", "last", "nth", "argpos", "perm", "trip", "while")


def index_terms(nodes):
    """Int (and Obj) terms at which quantified facts are instantiated."""
    out = {}
    objs = {}
    for t in nodes:
        nm = t.name
        if nm is None:
            continue
        if t.sort == INT:
            if nm.startswith(("ix!", "sk!")) or nm.split("!")[0] in IX_NAMES:
                out[t.i] = t
        elif t.sort == Obj and nm.startswith(("ix!", "sk!")):
            objs[t.i] = t
        if nm in AGGS:
            continue
        for ch in t.ch:
            if ch.sort == INT:
                out[ch.i] = ch
            elif ch.sort == Obj:
                objs[ch.i] = ch

    def least(ts, n):  # the plainest terms, in order of occurrence
        ts = list(ts.values())
        if len(ts) > n:
            keep_ = {t.i for t in sorted(ts, key=lambda t: t.height)[:n]}
            ts = [t for t in ts if t.i in keep_]
        return [t.e for t in ts]

    return least(out, 24), least(objs, 12)


ARGPOS = {}


def argpos(e):
    """Position at which the max/min aggregate e is attained (a function of its args)."""
    d = agg_of(e)
    nm = "argpos!" + d.name
    if nm not in ARGPOS:
        ARGPOS[nm] = z3.Function(nm, *[c.sort() for c in e.children()], INT)
    return ARGPOS[nm](*e.children())


WIT = {}


def witness(e, sort):
    d = agg_of(e)
    nm = "sk!" + d.name
    if nm not in WIT:
        WIT[nm] = z3.Function(nm, *([c.sort() for c in e.children()] or []), sort) if e.children() else z3.Const(nm, sort)
    return WIT[nm](*e.children()) if e.children() else WIT[nm]


def agg_facts(e, ints, objs):
    d = agg_of(e)
    i = e.get_id()
    node(e)
    out = list(_once(("agg", i), lambda: agg_base(e, d)))
    bs = d.bvs[0].sort() if d.bvs else None
    if d.kind in ("max", "min", "any", "first", "last"):
        pts = ints + [z3.IntVal(0)]
    elif d.kind == "trip":
        pts = ints + [z3.IntVal(0), simp(e - 1)]
    elif d.kind in ("kany", "kmax", "kmin"):
        pts = ints if bs == INT else objs
    else:
        pts = ()
    if d.kind in ("any", "first"):
        n = simp(parts(e, d)[0])
        if z3.is_add(n) and const(n.arg(0)) == 1:
            # something was appended to a sequence: look at it
            pts = pts + [simp(n - 1)]
    if d.kind in ("any", "first", "last"):
        # positions of the extrema the condition mentions
        bn = node(body_at(e, d_bv(INT), d))
        for m in subnodes([bn.e]).values():
            if m.name in AGGS and AGGS[m.name].kind in ("max", "min") and d_bv(INT).get_id() not in m.consts:
                p = argpos(m.e)
                if all(not p.eq(t) for t in pts):
                    pts = pts + [p]
                out += _once(("agg", m.i), lambda: agg_base(m.e, AGGS[m.name]))
    if d.kind == "sum" and (body_sign(d) or 0) >= 1:
        # no summand exceeds the sum: not that of an extremum the summands mention
        for m in subnodes([body_at(e, d_bv(INT), d)]).values():
            if m.name in AGGS and AGGS[m.name].kind in ("max", "min") and d_bv(INT).get_id() not in m.consts:
                p = argpos(m.e)
                n = parts(e, d)[0]
                out += _once(("agg", m.i), lambda: agg_base(m.e, AGGS[m.name]))
                out += _once(("summand", i, p.get_id()), lambda: [z3.Implies(z3.And(p >= 0, p < n), body_at(e, p, d) <= e)])
    for t in pts:
        node(t)
        out += _once(("at", i, t.get_id()), lambda: agg_at(e, d, t))
    return out


_signs = {}


def sign_of(n):
    """The sign that the shape of the term shows (2, 1, -1, -2), or None."""
    e = n.e
    if z3.is_rational_value(e) or z3.is_int_value(e):
        v = e.as_fraction() if z3.is_rational_value(e) else e.as_long()
        return 2 if v > 0 else 1 if v == 0 else -2
    if n.name in ("EXP", "SQRT"):
        return 1
    if n.name in AGGS and AGGS[n.name].kind in ("sum", "ksum"):
        r = body_sign(AGGS[n.name])
        return r and (1 if r > 0 else -1)
    if n.kind == z3.Z3_OP_ITE:
        a, b = sign_of(n.ch[1]), sign_of(n.ch[2])
        if a is None or b is None or (a > 0) != (b > 0):
            return None
        return min(a, b) if a > 0 else max(a, b)
    if n.kind == z3.Z3_OP_ADD:
        r = [sign_of(c) for c in n.ch]
        if all(x is not None and x > 0 for x in r):
            return max(r)
        if all(x is not None and x < 0 for x in r):
            return min(r)
        return None
    if n.kind == z3.Z3_OP_MUL and len(n.ch) == 2 and n.ch[0].e.eq(n.ch[1].e):
        return 1
    if n.kind == z3.Z3_OP_MUL:
        r = [sign_of(c) for c in n.ch]
        if any(x is None for x in r):
            return None
        neg = sum(x < 0 for x in r) % 2
        k = 2 if all(abs(x) == 2 for x in r) else 1
        return -k if neg else k
    return None


def body_sign(d):
    """2: every summand is positive, 1: non-negative, -1, -2, None, whatever the
    parameters and the index; shown from the facts about the inputs alone."""
    if d.name in _signs:
        return _signs[d.name]
    _signs[d.name] = None
    b = d.bodies[0]
    r = None
    n = node(b)
    r = sign_of(n)
    if r is not None:
        _signs[d.name] = r
        return r
    if any(m.name in AXIOMS or m.name in ("EXP", "SQRT") or m.kind == z3.Z3_OP_ITE or m.name in AGGS for m in subnodes([b]).values()) or n.nl:
        f = gather([b], rounds=2)
        for strict, sg in ((b <= 0, 2), (b < 0, 1), (b >= 0, -2), (b > 0, -1)):
            q = f + [strict]
            if solve(nl_abstract(q) if nonlinear(q) else q, 200) == "unsat":
                r = sg
                break
        if r is None and n.nl:
            for strict, sg in ((b < 0, 1),):
                if solve(f + [strict], 300) == "unsat":
                    r = sg
    _signs[d.name] = r
    return r


def agg_base(e, d):
    """Facts of an aggregate application that need no further index."""
    n, ps, ex = parts(e, d)
    k = d.kind
    out = []

    def rng(t):
        return z3.And(t >= 0, t < n)

    if k in ("max", "min"):
        p = argpos(e)
        out.append(z3.Implies(n > 0, z3.And(rng(p), e == body_at(e, p, d))))
    elif k == "any":
        w = witness(e, INT)
        out.append(z3.Implies(e, z3.And(rng(w), body_at(e, w, d))))
    elif k == "card":
        out.append(e >= 1)
    elif k == "kany":
        w = witness(e, d.bvs[0].sort())
        out.append(z3.Implies(e, body_at(e, w, d)))
    elif k in ("first", "last"):
        # meaningful when some index satisfies the condition; n otherwise (-1 for last)
        some = z3.And(rng(e), body_at(e, e, d))
        none = n if k == "first" else z3.IntVal(-1)
        out.append(z3.Or(some, e == z3.If(n > 0, none, z3.IntVal(0) if k == "first" else none)))
    elif k == "sum":
        zero = z3.RealVal(0) if e.sort() == REAL else z3.IntVal(0)
        out.append(z3.Implies(n <= 0, e == zero))
        out.append(z3.Implies(n == 1, e == body_at(e, z3.IntVal(0), d)))
        out.append(z3.Implies(n == 2, e == body_at(e, z3.IntVal(0), d) + body_at(e, z3.IntVal(1), d)))
        b = d.bodies[0]
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
            v, w = const(b.arg(1)), const(b.arg(2))
            if v is not None and w is not None:
                # a count: at most one for every position
                out.append(z3.Implies(n > 0, z3.And(e <= n * max(v, w), e >= n * min(v, w))))
        sg = body_sign(d)
        if sg:
            out.append((e >= 0) if sg > 0 else (e <= 0))
        if abs(sg or 0) == 2:
            out.append(z3.Implies(n > 0, (e > 0) if sg > 0 else (e < 0)))
    elif k == "ksum":
        sg = body_sign(d)
        if sg:
            out.append((e >= 0) if sg > 0 else (e <= 0))
    elif k == "nth":
        # position of the (p+1)-th index satisfying the condition
        p = ex[0]
        cnt = mk_sum(n, d_bv(INT), z3.If(body_at(e, d_bv(INT), d), z3.IntVal(1), z3.IntVal(0)))
        out.append(z3.Implies(z3.And(p >= 0, p < cnt), z3.And(rng(e), body_at(e, e, d))))
        out.append(z3.Implies(z3.And(rng(p), z3.Not(mk_any(n, d_bv(INT), z3.Not(body_at(e, d_bv(INT), d))))), e == p))
    elif k == "perm":
        p = ex[0]
        out.append(z3.Implies(rng(p), rng(e)))
        at = 0 if const(simp(p)) == 0 else 1 if const(simp(p - n + 1)) == 0 else None
        if at is not None and len(d.bodies) == 1 and d.bodies[0].sort() in (INT, REAL):
            # the ends of a stable sort
            rev = str(d.aux).endswith("True")
            v = body_at(e, d_bv(INT), d)
            top = mk_agg("max" if rev == (at == 0) else "min", v.sort(), [d_bv(INT)], [v], n=n)
            out.append(z3.Implies(n > 0, e == mk_where("first" if at == 0 else "last", n, d_bv(INT), simp(v == top))))
    elif k == "trip":
        # number of iterations before the condition first fails
        out += [e >= 0, z3.Not(body_at(e, e, d))]
    elif k in ("kmax", "kmin"):
        # extremum of val over the keys k with has(k); meaningful when there is one
        w = witness(e, d.bvs[0].sort())
        some = mk_agg("kany", BOOL, [d_bv(d.bvs[0].sort())], [body_at(e, d_bv(d.bvs[0].sort()), d, 0)])
        out.append(z3.Implies(some, z3.And(body_at(e, w, d, 0), e == body_at(e, w, d, 1))))
    elif k == "fold":
        out.append(z3.Implies(n <= 0, e == ex[d.aux]))
        out.append(z3.Implies(n == 1, e == body_at(e, [z3.IntVal(0)] + list(ex), d, d.aux)))
    return out


def agg_at(e, d, t):
    """Facts of an aggregate application at the index (or key) t."""
    n, ps, ex = parts(e, d)
    k = d.kind

    def rng(t):
        return z3.And(t >= 0, t < n)

    if k in ("max", "min"):
        b = body_at(e, t, d)
        return [z3.Implies(rng(t), (b <= e) if k == "max" else (b >= e))]
    if k == "any":
        return [z3.Implies(z3.And(rng(t), body_at(e, t, d)), e)]
    if k == "kany":
        return [z3.Implies(body_at(e, t, d), e)]
    if k in ("first", "last"):
        if t.eq(e):
            return []
        return [z3.Implies(z3.And(rng(t), body_at(e, t, d)), z3.And(rng(e), body_at(e, e, d), (e <= t) if k == "first" else (e >= t)))]
    if k == "trip":
        return [z3.Implies(z3.And(t >= 0, t < e), body_at(e, t, d))]
    if k in ("kmax", "kmin"):
        b = body_at(e, t, d, 1)
        return [z3.Implies(body_at(e, t, d, 0), (b <= e) if k == "kmax" else (b >= e))]
    return []


def positive_sums(sums):
    """Totals over a whole row of input data that the input is known to make positive."""
    out = []
    for t in sums if POSITIVE else []:
        d = agg_of(t)
        n, _, _ = parts(t, d)
        i = z3.Int("ix!row")
        b = body_at(t, i, d)
        fn = POSITIVE.get(b.decl().name()) if z3.is_app(b) else None
        if fn is not None and b.num_args() and b.arg(b.num_args() - 1).eq(i) and not any(x.e.eq(i) for x in subnodes(b.children()[:-1]).values()):
            c = fn(n, *b.children())
            if c is not None:
                out.append(z3.Implies(c, t > 0))
    return out


def partial_sums(sums):
    """Partial sums of one sequence of non-negative terms increase."""
    out, groups = [], {}
    for u in sums:
        d = agg_of(u)
        if (body_sign(d) or 0) >= 1:
            groups.setdefault((d.name,) + tuple(c.get_id() for c in u.children()[1:]), []).append(u)
    for us in groups.values():
        if len(us) > 8:
            continue
        for a, b in itertools.permutations(us, 2):
            na, nb = a.arg(0), b.arg(0)

            def fact(a=a, b=b, na=na, nb=nb):
                nx = body_at(a, na, agg_of(a))
                return [z3.Implies(z3.And(na >= 0, na < nb), a + nx <= b), z3.Implies(z3.And(na >= 0, nb == na + 1), b == a + nx)]

            out += _once(("partial", a.get_id(), b.get_id()), fact)
    return out


_dbv = {}


def d_bv(sort):
    """A reusable bound constant (always abstracted by mk_agg before it can escape)."""
    if str(sort) not in _dbv:
        _dbv[str(sort)] = z3.Const("bv!" + str(sort), sort)
    return _dbv[str(sort)]


def counted(sums, anys):
    """A number of positions where a condition holds is positive exactly where there is one."""
    out = []
    for s in sums:
        ds = agg_of(s)
        for a in anys:
            if not a.arg(0).eq(s.arg(0)):
                continue
            out += _once(("counted", s.get_id(), a.get_id()), lambda: counted_(s, ds, a, agg_of(a)))
    return out


def counted_(s, ds, a, da):
    node(s), node(a)
    t = d_bv(INT)
    b = body_at(s, t, ds)
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
        c, v, w = b.children()
        v, w = const(v), const(w)
        if v is not None and w is not None and v > 0 and w == 0 and c.eq(body_at(a, t, da)):
            return [a == (s > 0), s >= 0]
    return []


def gather(exprs, rounds=3, extra_ints=()):
    """Facts relevant to the terms."""
    facts, seen_f = [], set()
    acc = subnodes(exprs)
    for r in range(rounds):
        nodes = list(acc.values())
        ints, objs = index_terms(nodes)
        for x in extra_ints:
            if all(not x.eq(t) for t in ints):
                ints.append(x)
        new = []
        for t in nodes:
            nm = t.name
            if nm is None:
                continue
            if nm in AXIOMS:
                new.extend(_once(("ax", t.i, len(AXIOMS[nm])), lambda: [f for f in (fn(*[c.e for c in t.ch]) for fn in AXIOMS[nm]) if f is not None]))
            if nm in AGGS and r < 2:
                new.extend(agg_facts(t.e, ints, objs))
        new.extend(_math_facts(nodes))
        if r < 2:
            sums = [t.e for t in nodes if t.name in AGGS and AGGS[t.name].kind == "sum"]
            new.extend(positive_sums(sums))
            new.extend(partial_sums(sums))
            new.extend(counted(sums, [t.e for t in nodes if t.name in AGGS and AGGS[t.name].kind == "any"]))
        added = []
        for f in new:
            i = f.get_id()
            if i not in seen_f:
                seen_f.add(i)
                facts.append(f)
                added.append(f)
        if not added or len(facts) > 1500:
            break
        n0 = len(acc)
        subnodes(added, acc)
        if len(acc) == n0:
            break
    STATS["facts"] += len(facts)
    return facts


def lit_facts(exprs):
    ls = [c for c in consts_of(exprs) if c.decl().name().startswith("lit!")]
    return [z3.Distinct(ls)] if len(ls) > 1 else []


_nlmemo = {}
_cache = {}
_proved = {}
LAST_MODEL = [None]


def solve(assertions, timeout=None, want_model=False):
    """'unsat', 'sat' or 'unknown' for the conjunction."""
    key = None
    if not want_model:
        key = frozenset(a.get_id() for a in assertions)
        if key in _cache:
            return _cache[key]
        keep(*assertions)
    t0 = time.time()
    s = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
    limit = timeout or LIMITS["timeout"]
    s.set("rlimit", limit * LIMITS["rate"])  # the same answer on a loaded machine
    s.set("timeout", limit * 10)
    s.add(*assertions)
    r = str(s.check())
    STATS["queries"] += 1
    STATS[r] += 1
    STATS["solver_s"] += time.time() - t0
    if r == "sat":
        LAST_MODEL[0] = s.model()
    if key is not None:
        _cache[key] = r
    return r


def nl_abstract(exprs):
    """Replaces non-linear products and quotients by uninterpreted functions."""
    MUL = z3.Function("nl_mul", REAL, REAL, REAL)
    DIV = z3.Function("nl_div", REAL, REAL, REAL)
    memo = _nlmemo

    def go(e):
        nd = node(e)
        i = nd.i
        if not nd.nl:
            return e
        if i in memo:
            return memo[i]
        if not z3.is_app(e) or not e.children():
            r = e
        else:
            ch = [go(c) for c in e.children()]
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and e.sort() == REAL:
                nums = [c for c in ch if z3.is_rational_value(c)]
                oth = sorted([c for c in ch if not z3.is_rational_value(c)], key=lambda c: c.get_id())
                if len(oth) <= 1:
                    r = z3.Product(ch)
                else:
                    r = oth[0]
                    for c in oth[1:]:
                        r = MUL(r, c)
                    for c in nums:
                        r = c * r
            elif k == z3.Z3_OP_DIV and e.sort() == REAL and not z3.is_rational_value(ch[1]):
                r = DIV(ch[0], ch[1])
            else:
                try:
                    r = e.decl()(*ch) if k == z3.Z3_OP_UNINTERPRETED else z3.substitute(e, *[(o, c) for o, c in zip(e.children(), ch) if not o.eq(c)]) if any(not o.eq(c) for o, c in zip(e.children(), ch)) else e
                except z3.Z3Exception:
                    r = e
        memo[i] = r
        return r

    return [go(e) for e in exprs]


def nonlinear(exprs):
    return any(node(e).nl for e in exprs)


def nl_signs(exprs):
    """Signs and unit bounds of the abstracted products and quotients."""
    out = []
    k = 0
    for m in sorted((m for m in subnodes(exprs).values() if m.name in ("nl_mul", "nl_div")), key=lambda m: m.i):
        if k >= 60:
            break
        k += 1
        t, (a, b) = m.e, [c.e for c in m.ch]
        pp, nn, pn, np_ = z3.And(a > 0, b > 0), z3.And(a < 0, b < 0), z3.And(a > 0, b < 0), z3.And(a < 0, b > 0)
        if m.name == "nl_mul":
            fs = lambda: [z3.Implies(z3.Or(pp, nn), t > 0), z3.Implies(z3.Or(pn, np_), t < 0), z3.Implies(z3.Or(a == 0, b == 0), t == 0),
                          z3.Implies(a == 1, t == b), z3.Implies(b == 1, t == a),
                          z3.Implies(z3.And(a >= 0, b >= 0, a <= 1), t <= b), z3.Implies(z3.And(a >= 0, b >= 0, b <= 1), t <= a)]
        else:
            fs = lambda: [z3.Implies(z3.Or(pp, nn), t > 0), z3.Implies(z3.Or(pn, np_), t < 0), z3.Implies(z3.And(a == 0, b != 0), t == 0),
                          z3.Implies(b == 1, t == a), z3.Implies(z3.And(b > 0, a <= b), t <= 1), z3.Implies(z3.And(b > 0, a >= b), t >= 1),
                          z3.Implies(z3.And(b > 0, a < b), t < 1), z3.Implies(z3.And(b > 0, a > b), t > 1)]
        out += _once(("nls", m.i), fs)
    return out


def check_unsat(assertions, timeout=None, linear=False):
    """True when the conjunction (with all relevant facts) is unsatisfiable."""
    facts = gather(assertions)
    full = list(assertions) + facts
    full += lit_facts(full)
    if nonlinear(full):
        ab = nl_abstract(full)
        if solve(ab + nl_signs(ab), timeout) == "unsat":
            return True
        if linear or not LIMITS["nl"]:
            return False
    return solve(full, timeout) == "unsat"


def quick_unsat(pc, cond):
    """Unsatisfiable without any facts (cheap)."""
    asserts = list(pc) + [cond]
    if nonlinear(asserts):
        asserts = nl_abstract(asserts)
    return solve(asserts, 500) == "unsat"


def feasible(pc, cond):
    """False only when pc and cond exclude each other."""
    c = simp(cond)
    if z3.is_false(c):
        return False
    if z3.is_true(c):
        return True
    # cheap: without facts
    if quick_unsat(pc, c):
        return False
    return not check_unsat(list(pc) + [c], 1500, linear=True)


def entails(pc, goal):
    g = simp(goal)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    ng = simp(z3.Not(g))
    return quick_unsat(pc, ng) or check_unsat(list(pc) + [ng], 1500, linear=True)


# ------------------------------------------------------------------ prover
_n = itertools.count()


def fresh_ix(sort=INT, tag="q"):
    return z3.Const("ix!%s%d" % (tag, next(_n)), sort)


def agg_terms(exprs):
    out = []
    for t in subnodes(exprs).values():
        if t.name is not None and t.name in AGGS:
            out.append(t)
    out.sort(key=lambda t: t.i)
    return [t.e for t in out]


def pointwise_equal(a, b, pc, depth):
    """Pointwise congruence: a and b are applications of the same kind."""
    da, db = agg_of(a), agg_of(b)
    if da.kind != db.kind or a.sort() != b.sort() or len(da.bodies) != len(db.bodies):
        return False
    if len(da.bvs) != len(db.bvs) or da.nextra != db.nextra or da.aux != db.aux:
        return False
    na, pa, ea = parts(a, da)
    nb, pb, eb = parts(b, db)
    if any(x.sort() != y.sort() for x, y in zip(da.bvs, db.bvs)):
        return False
    if any(x.sort() != y.sort() for x, y in zip(da.bodies, db.bodies)):
        return False
    key = (a.get_id(), b.get_id(), frozenset(p.get_id() for p in pc))
    if key in _proved:
        return _proved[key]
    keep(a, b, *pc)
    _proved[key] = False
    ok = True
    if na is not None and not na.eq(nb):
        ok = prove(pc, na == nb, depth + 1)
    for x, y in zip(ea, eb):
        if ok and not x.eq(y):
            ok = x.sort() == y.sort() and prove(pc, x == y, depth + 1)
    if ok:
        ts = [fresh_ix(x.sort()) for x in da.bvs]
        hyp = list(pc)
        if na is not None:
            hyp.append(z3.And(ts[0] >= 0, ts[0] < na))
        order = list(range(len(da.bodies)))
        if da.kind == "while":
            # bodies: exit condition, invariant, values at exit..., next state...
            # (aux: number of exit values); both invariants hold on reachable states
            hyp += [body_at(a, ts, da, 1), body_at(b, ts, db, 1)]
            order.remove(1)
        ex = None
        for w in order:
            x, y = body_at(a, ts, da, w), body_at(b, ts, db, w)
            h = hyp
            if da.kind == "while":
                if w == 0:
                    ex = x
                elif w < 2 + da.aux:
                    h = hyp + [ex]
                else:
                    h = hyp + [z3.Not(ex)]
            if not x.eq(y):
                ok = prove(h, x == y, depth + 1)
            if not ok:
                break
    _proved[key] = ok
    return ok


def ksum_sum(a, b, pc, depth):
    """A sum over the int keys of a dict against a sum over a range."""
    if agg_of(a).kind == "sum":
        a, b = b, a
    da, db = agg_of(a), agg_of(b)
    if da.bvs[0].sort() != INT:
        return False
    n, _, _ = parts(b, db)
    t = fresh_ix()
    zero = z3.RealVal(0) if a.sort() == REAL else z3.IntVal(0)
    return prove(pc, body_at(a, t, da) == z3.If(z3.And(t >= 0, t < n), body_at(b, t, db), zero), depth + 1)


class Links:
    """Which index constants the hypotheses relate by equations: two aggregates are only
    compared when they depend on the same ones (a filter; skipping proves nothing)."""

    def __init__(self, pc):
        self.parent = {}
        for p in pc:
            for a in conjuncts(p):
                if z3.is_eq(a) and a.arg(0).sort() in (INT, Obj):
                    cs = [c.get_id() for c in consts_of([a])]
                    for c in cs[1:]:
                        a_, b_ = self.find(c), self.find(cs[0])
                        if a_ != b_:
                            self.parent[a_] = b_

    def find(self, c):
        while c in self.parent:
            c = self.parent[c]
        return c

    def sig(self, e):
        return {self.find(c.get_id()) for c in consts_of([e]) if c.decl().name().startswith(LIFT)}

    def similar(self, a, b):
        return self.sig(a) == self.sig(b)


def has_agg(e):
    n = node(e)
    if n.agg is None:
        n.agg = n.name in AGGS or any(has_agg(c.e) for c in n.ch)
    return n.agg


def structural(a, b, pc, depth):
    """a == b by matching their structure: equal heads with equal arguments, aggregates
    pointwise."""
    if a.eq(b):
        return True
    if a.sort() != b.sort() or depth > LIMITS["depth"]:
        return False
    key = ("st", a.get_id(), b.get_id(), frozenset(p.get_id() for p in pc))
    if key in _proved:
        return _proved[key]
    keep(a, b, *pc)
    _proved[key] = False
    r = structural_(a, b, pc, depth)
    _proved[key] = r
    return r


def structural_(a, b, pc, depth):
    da, db = agg_of(a), agg_of(b)
    if da is not None and db is not None:
        if a.decl().eq(b.decl()) and all(x.eq(y) or structural(x, y, pc, depth) for x, y in zip(a.children(), b.children())):
            return True
        if da.kind == db.kind:
            return pointwise_equal(a, b, pc, depth)
        if {da.kind, db.kind} == {"ksum", "sum"}:
            return ksum_sum(a, b, pc, depth)
        return False
    if not has_agg(a) and not has_agg(b):
        return check_unsat(pc + [z3.Not(a == b)])
    if da is not None or db is not None:
        return False
    na, nb = node(a), node(b)
    if na.kind != nb.kind or na.name != nb.name or len(na.ch) != len(nb.ch) or not na.ch:
        return False
    ca, cb = [c.e for c in na.ch], [c.e for c in nb.ch]
    if na.kind == z3.Z3_OP_ITE:
        c, _, _ = ca
        return (structural(ca[0], cb[0], pc, depth) and structural(ca[1], cb[1], pc + [c], depth)
                and structural(ca[2], cb[2], pc + [simp(z3.Not(c))], depth))
    if na.kind in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ):
        left = list(cb)
        for x in ca:
            hit = next((k for k, y in enumerate(left) if x.eq(y)), None)
            if hit is None:
                hit = next((k for k, y in enumerate(left) if structural(x, y, pc, depth)), None)
            if hit is None:
                return False
            left.pop(hit)
        return True
    return all(structural(x, y, pc, depth) for x, y in zip(ca, cb))


_decided = {}


def decide(pc, c):
    """True or False when the hypotheses settle the condition, else None."""
    if z3.is_true(c) or z3.is_false(c):
        return z3.is_true(c)
    key = (c.get_id(), tuple(p.get_id() for p in pc))
    if key not in _decided:
        keep(c, *pc)
        r = None
        nc = simp(z3.Not(c))
        for cond, val in ((nc, True), (c, False)):
            if quick_unsat(pc, cond):
                r = val
                break
        if r is None:
            for cond, val in ((nc, True), (c, False)):
                if check_unsat(pc + [cond], 1000, linear=True):
                    r = val
                    break
        _decided[key] = r
    return _decided[key]


def resolve(pc, g):
    """The goal without the case distinctions that the hypotheses settle."""
    memo = {}

    def go(n):
        if n.i in memo:
            return memo[n.i]
        e = n.e
        if n.kind == z3.Z3_OP_ITE:
            c = go(n.ch[0])
            v = decide(pc, c)
            if v is not None:
                r = go(n.ch[1] if v else n.ch[2])
                memo[n.i] = r
                return r
        if n.ch:
            ch = [go(c) for c in n.ch]
            prs = [(o.e, c) for o, c in zip(n.ch, ch) if not o.e.eq(c)]
            if prs:
                if n.kind == z3.Z3_OP_UNINTERPRETED:
                    e = e.decl()(*ch)
                else:
                    e = rebuild(e, ch)
        if n.name == "EXP":
            e = exp_term(simp(e.arg(0)), lambda s: decide(pc, s > 0) is True)
        memo[n.i] = e
        return e

    if not has_ite(g) and not log_in_exp(g):
        return g
    return simp(go(node(g)))


def log_of(e):
    """s when e is log s, possibly by cases."""
    if z3.is_app(e) and e.decl().eq(LOG):
        return e.arg(0)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        x = log_of(a)
        y = log_of(b) if x is not None else None
        return None if y is None else z3.If(c, x, y)
    return None


def exp_term(e, ok=lambda s: True):
    """exp(a + log s) = s * exp(a)  (real arithmetic)"""
    if z3.is_add(e) and any(c.decl().kind() == z3.Z3_OP_ITE for c in e.children() if z3.is_app(c)):
        ch = [(c, log_of(c) if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE else None) for c in e.children()]
        e = z3.Sum([c if s is None else LOG(simp(s)) for c, s in ch])
    if z3.is_add(e):
        fac, rest = [], []
        for c in e.children():
            if z3.is_app(c) and c.decl().eq(LOG) and ok(c.arg(0)):
                fac.append(c.arg(0))
            elif z3.is_mul(c) and len(c.children()) == 2 and z3.is_rational_value(c.arg(0)) and c.arg(0).as_fraction() == -1 \
                    and z3.is_app(c.arg(1)) and c.arg(1).decl().eq(LOG) and ok(c.arg(1).arg(0)):
                fac.append(1 / c.arg(1).arg(0))
            else:
                rest.append(c)
        if fac:
            r = exp_term(simp(z3.Sum(rest)), ok) if rest else z3.RealVal(1)
            for f in fac:
                r = r / f.arg(1) if z3.is_div(f) and z3.is_rational_value(f.arg(0)) and f.arg(0).as_fraction() == 1 else r * f
            return simp(r)
    return EXP(e)


def rebuild(e, ch):
    d = e.decl()
    k = d.kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if k == z3.Z3_OP_AND:
        return z3.And(ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(ch)
    return d(*ch)


def log_in_exp(e):
    names = {m.name for m in subnodes([e]).values()}
    return "EXP" in names and "LOG" in names


def has_ite(e):
    return any(m.kind == z3.Z3_OP_ITE for m in subnodes([e]).values())


def split_goal(g):
    if z3.is_and(g):
        return [x for c in g.children() for x in split_goal(c)]
    return [g]


# ------------------------------------------------------------------ canonical aggregates
PRE = []
_canon = {}  # definition name -> (formal arguments, canonical term)
_cmemo = {}
_reps = {}
POINTWISE = ("sum", "max", "min", "any", "first", "last")


def canon(e):
    """The term with every aggregate replaced by a representative of its class: bodies
    simplified, equal definitions identified (for all parameters, under the
    preconditions alone)."""

    def go(n):
        if n.i in _cmemo:
            return _cmemo[n.i]
        e = n.e
        if n.ch:
            ch = [go(c) for c in n.ch]
            if any(not o.e.eq(c) for o, c in zip(n.ch, ch)):
                e = e.decl()(*ch) if n.kind == z3.Z3_OP_UNINTERPRETED else rebuild(e, ch)
            if n.name in AC:
                e = ac_build(e.decl(), ac_args(e, n.name)) if len(n.ch) == 2 else e
            if n.name in AGGS:
                formals, t = canonical(AGGS[n.name])
                e = z3.substitute(t, *zip(formals, ch)) if formals else t
            if z3.is_add(e):
                e = absorb(e)
        keep(n.e, e)
        _cmemo[n.i] = e
        return e

    return go(node(e))


def absorb(e):
    """body(-1) + sum of body(t) for t < n  is the sum of body(t - 1) for t < n + 1."""
    ch = list(e.children())
    for j, u in enumerate(ch):
        d = agg_of(u)
        if d is None or d.kind != "sum":
            continue
        n = u.arg(0)
        m = simp(n + 1)
        if z3.is_add(m) or z3.is_rational_value(m) or not quick_unsat(PRE, n < 0):
            continue
        b = canon(simp(body_at(u, z3.IntVal(-1), d)))
        for k, x in enumerate(ch):
            if k != j and x.sort() == b.sort() and (x.eq(b) or structural(simp(x), b, list(PRE), 1)):
                t = fresh_ix(INT, "t")
                s = mk_sum(m, t, simp(body_at(u, simp(t - 1), d)))
                rest = [y for q, y in enumerate(ch) if q not in (j, k)]
                return z3.Sum(rest + [canon(s)]) if rest else canon(s)
    return e


def canonical(d):
    if d.name in _canon:
        return _canon[d.name]
    formals = [fresh_ix(d.decl.domain(j), "f") for j in range(d.decl.arity())]
    app = d.decl(*formals)
    _canon[d.name] = (formals, app)  # for recursive definitions
    n, ps, ex = parts(app, d)
    ts = [fresh_ix(b.sort(), "t") for b in d.bvs]
    t = app
    if d.kind not in ("while", "trip") and d.bvs:
        bodies = [canon(body_at(app, ts, d, w)) for w in range(len(d.bodies))]
        if d.kind in POINTWISE:
            bodies = [resolve(PRE + [ts[0] >= 0, ts[0] < n], b) for b in bodies]
        old = [body_at(app, ts, d, w) for w in range(len(d.bodies))]
        if any(not a.eq(b) for a, b in zip(bodies, old)):
            if d.kind == "sum":
                t = mk_sum(n, ts[0], bodies[0])
            elif d.kind == "any":
                t = mk_any(n, ts[0], bodies[0])
            else:
                t = mk_agg(d.kind, d.decl.range(), ts, bodies, n=n, extra=ex, aux=d.aux)
    t2 = {}
    for u in agg_terms([t]):
        d2 = agg_of(u)
        if d2.name == d.name or d2.name not in _canon:
            r = representative(u, d2)
            if not r.eq(u):
                t2[u.get_id()] = (u, r)
    if t2:
        t = z3.substitute(t, *t2.values())
    _canon[d.name] = (formals, t)
    return formals, t


def inputs_of(d):
    """Names of the inputs a definition depends on."""
    if d.cache.get("inputs") is None:
        d.cache["inputs"] = frozenset()
        r = set()
        for m in subnodes(d.bodies).values():
            if m.name in AGGS:
                r |= inputs_of(AGGS[m.name])
            elif m.name is not None and not m.name.startswith((B_PREFIX, P_PREFIX)):
                r.add(m.name)
        d.cache["inputs"] = frozenset(r)
    return d.cache["inputs"]


def representative(u, d):
    """An equal application of a definition met before, else u itself."""
    key = (d.kind, str(u.sort()), inputs_of(d), d.nextra, d.ranged, str(d.aux))
    cls = _reps.setdefault(key, [])
    n, ps, ex = parts(u, d)
    if any(r is d for r in cls):
        return u
    for r in cls:
        if sorted(str(p.sort()) for p in r.params) != sorted(str(p.sort()) for p in d.params) or len(ps) > 4:
            continue
        for perm in itertools.islice(itertools.permutations(ps), 6):
            if any(a.sort() != b.sort() for a, b in zip(perm, r.params)):
                continue
            v = r.decl(*(([n] if n is not None else []) + list(perm) + list(ex)))
            if pointwise_equal(u, v, list(PRE), 1):
                return v
    cls.append(d)
    return u


def open_any(pc):
    """The hypotheses, with a witness for every existential among them."""
    out, todo, k = [], list(pc), 0
    while todo:
        p = todo.pop(0)
        out.append(p)
        if k > 12:
            continue
        for c in conjuncts(p):
            d = agg_of(c)
            if d is None or d.kind not in ("any", "kany"):
                continue
            k += 1
            w = witness(c, d.bvs[0].sort())
            n, _, _ = parts(c, d)
            b = body_at(c, w, d)
            todo.append(simp(b if n is None else z3.And(w >= 0, w < n, b)))
    return out


def open_all(pc, goal):
    """The hypotheses, with the universal ones instantiated at the index constants of the goal."""
    ix = [t.e for t in subnodes([goal]).values() if t.sort == INT and t.name is not None and t.name.startswith("ix!") and not t.ch][:6]
    if not ix:
        return list(pc)
    out, todo, k = list(pc), list(pc), 0
    seen = {p.get_id() for p in pc}
    while todo:
        for c in conjuncts(todo.pop(0)):
            if not z3.is_not(c):
                continue
            d = agg_of(c.arg(0))
            if d is None or d.kind != "any":
                continue
            n, _, _ = parts(c.arg(0), d)
            for x in ix:
                if k > 24 or not quick_unsat(out, z3.Not(z3.And(x >= 0, x < n))):
                    continue
                b = simp(z3.Not(body_at(c.arg(0), x, d)))
                if b.get_id() not in seen and not z3.is_true(b):
                    k += 1
                    keep(b)
                    seen.add(b.get_id())
                    out.append(b)
                    todo.append(b)
    return out


def settle(pc):
    """The hypotheses, with the existentials nested in them that they decide."""
    top = {c.get_id() for p in pc for c in conjuncts(p)}
    out = list(pc)
    for u in agg_terms(pc)[:24]:
        if not is_any(u) or u.get_id() in top or any(z3.is_not(c) and c.arg(0).eq(u) for p in pc for c in conjuncts(p)):
            continue
        if quick_unsat(pc, z3.Not(u)):
            out.append(u)
        elif quick_unsat(pc, u):
            out.append(z3.Not(u))
    return out


def discharge(pc, goal, pre=()):
    """prove, without non-linear arithmetic first, on canonical aggregates."""
    PRE[:] = list(pre)
    pc = open_any(open_all(open_any(settle(list(pc))), goal))
    if LIMITS["canon"]:
        pc, goal = [canon(p) for p in pc], canon(goal)
    for nl in (False, True):
        LIMITS["nl"] = nl
        try:
            if prove(pc, goal):
                return True
        finally:
            LIMITS["nl"] = True
        for k in [k for k, v in _proved.items() if v is False or v is None]:
            del _proved[k]
    return False


def boolean_eq(g):
    """The sides of an equality of conditions, also of their indicators."""
    if not z3.is_eq(g):
        return None
    a, b = g.arg(0), g.arg(1)
    if z3.is_bool(a):
        return a, b
    sides = []
    for x in (a, b):
        while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
            x = x.arg(0)
        if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_rational_value(z3.simplify(z3.ToReal(x.arg(1)) if z3.is_int(x.arg(1)) else x.arg(1)))):
            return None
        sides.append((x.arg(0), str(x.arg(1)), str(x.arg(2))))
    (c, p, q), (e, r, t) = sides
    if p == r and q == t and p != q:
        return c, e
    return None


def quantified(pc, g, depth, timeout):
    """Goals with an existential on top: an equivalence as two implications, its
    hypothesis with a witness, its conclusion at the index constants."""
    q = boolean_eq(g)
    if q is not None:
        if not any(has_any(x) for x in q):
            return False
        return prove(pc, z3.Implies(q[0], q[1]), depth + 1, timeout) and prove(pc, z3.Implies(q[1], q[0]), depth + 1, timeout)
    if z3.is_or(g):
        ch = g.children()
        neg = [c for c in ch if z3.is_not(c) and is_any(c.arg(0))]
        if neg:
            rest = [c for c in ch if all(not c.eq(x) for x in neg)]
            hyp = open_all([h for h in open_any(pc + [c.arg(0) for c in neg]) if all(not h.eq(c.arg(0)) for c in neg)], g)
            return prove(hyp, z3.Or(rest) if rest else z3.BoolVal(False), depth + 1, timeout)
        pos = [c for c in ch if is_any(c)]
        if pos and len(pos) < len(ch):
            rest = [simp(z3.Not(c)) for c in ch if all(not c.eq(x) for x in pos)]
            return prove(open_any(pc + rest), z3.Or(pos) if len(pos) > 1 else pos[0], depth + 1, timeout)
    if z3.is_not(g) and is_any(g.arg(0)):
        return prove([h for h in open_any(pc + [g.arg(0)]) if not h.eq(g.arg(0))], z3.BoolVal(False), depth + 1, timeout)
    if is_any(g) and depth <= LIMITS["depth"]:
        d = agg_of(g)
        n, _, _ = parts(g, d)
        if n is None:
            return False
        ix = [t.e for t in subnodes([g] + pc).values() if t.sort == INT and t.name is not None and t.name.startswith("ix!") and not t.ch][:6]
        ix = [x for x in ix if check_unsat(pc + [z3.Not(z3.And(x >= 0, x < n))], timeout)]
        bs = [b for b in (simp(body_at(g, x, d)) for x in ix) if not z3.is_false(b)]
        for b in bs:
            if all(check_unsat(pc + [z3.Not(c)], timeout) for c in split_goal(b)):
                return True
        for b in bs:
            if prove(pc, b, depth + 1, timeout):
                return True
    return False


def is_any(e):
    d = agg_of(e)
    return d is not None and d.kind in ("any", "kany")


def has_any(e):
    return is_any(e) or z3.is_not(e) and is_any(e.arg(0)) or (z3.is_and(e) or z3.is_or(e)) and any(has_any(c) for c in e.children())


def prove(pc, goal, depth=0, timeout=None):
    g = simp(goal)
    if z3.is_true(g):
        return True
    if depth > LIMITS["depth"]:
        return False
    gs = split_goal(g)
    if len(gs) > 1:
        return all(prove(pc, x, depth, timeout) for x in gs)
    if z3.is_implies(g):
        return prove(open_any(list(pc) + [g.arg(0)]), g.arg(1), depth, timeout)
    neg = list(pc) + [z3.Not(g)]
    if check_unsat(neg, timeout):
        return True
    r = quantified(list(pc), g, depth, timeout)
    if r:
        return True
    g2 = resolve(list(pc), g)
    if not g2.eq(g):
        g = g2
        if z3.is_true(g):
            return True
        neg = list(pc) + [z3.Not(g)]
        if check_unsat(neg, timeout):
            return True
    if z3.is_eq(g) and structural(g.arg(0), g.arg(1), list(pc), depth):
        return True
    # congruence between aggregates of the goal (then also of the hypotheses)
    link = Links(pc)
    eqs = []
    terms = agg_terms([g])
    done = set()
    with_hyp = False
    for rnd in range(4):
        new = False
        eqs2 = sum_facts(terms, list(pc), depth, link)
        for f in eqs2:
            if all(not f.eq(x) for x in eqs):
                eqs.append(f)
                new = True
        if new and check_unsat(neg + eqs, timeout):
            return True
        new = False
        for a, b in itertools.combinations(terms, 2):
            if (a.get_id(), b.get_id()) in done or a.eq(b):
                continue
            done.add((a.get_id(), b.get_id()))
            da, db = agg_of(a), agg_of(b)
            if not link.similar(a, b):
                continue
            if {da.kind, db.kind} == {"ksum", "sum"} and a.sort() == b.sort():
                if ksum_sum(a, b, list(pc), depth):
                    eqs.append(a == b)
                    new = True
                continue
            if da.kind != db.kind or a.sort() != b.sort():
                continue
            if pointwise_equal(a, b, list(pc), depth):
                eqs.append(a == b)
                new = True
        if new and check_unsat(neg + eqs, timeout):
            return True
        ids = {t.get_id() for t in terms}
        more = [t for t in agg_terms(eqs) if t.get_id() not in ids][:8]
        if not more and not with_hyp:
            with_hyp = True
            more = [t for t in agg_terms(list(pc)) if t.get_id() not in ids]
            if len(more) > 12:
                break
        if not more:
            break
        terms = terms + more
    # case split on a condition of the goal
    if depth <= 1:
        r = cases(list(pc), g, depth, timeout)
        if r is not None:
            return r
        c = first_ite_cond(g)
        if c is not None:
            return (prove(list(pc) + [c], ite_assume(g, c, True), depth + 1, timeout)
                    and prove(list(pc) + [z3.Not(c)], ite_assume(g, c, False), depth + 1, timeout))
    return False


def sum_facts(terms, pc, depth, link=None):
    """Signs, bounds and linearity of sums, each shown pointwise first."""
    out = []
    for a, b in itertools.permutations([t for t in terms if agg_of(t).kind in ("sum", "fold")], 2):
        # the same recurrence a few steps further
        if a.decl().eq(b.decl()) and all(x.eq(y) for x, y in zip(a.children()[1:], b.children()[1:])):
            c = const(simp(a.arg(0) - b.arg(0)))
            if c is not None and 0 < c <= 3:
                d, m = agg_of(a), b.arg(0)
                if d.kind == "sum":
                    out.append(z3.Implies(m >= 0, a == z3.Sum([b] + [body_at(a, simp(m + q), d) for q in range(c)])))
                elif len(d.bodies) == 1:
                    x = b
                    for q in range(c):
                        x = body_at(a, [simp(m + q), x], d, d.aux)
                    out.append(z3.Implies(m >= 0, a == x))
    if depth > 2:
        return out
    sums = [t for t in terms if agg_of(t).kind == "sum"]
    for a, b in itertools.permutations(sums, 2):
        # the same summands but for a few at the front or the back
        if a.sort() != b.sort() or a.decl().eq(b.decl()) and all(x.eq(y) for x, y in zip(a.children()[1:], b.children()[1:])):
            continue
        na, nb = a.arg(0), b.arg(0)
        c = const(simp(na - nb))
        if c is None or not 0 < c <= 3 or link is not None and not link.similar(a, b):
            continue
        da, db = agg_of(a), agg_of(b)
        key = ("shift", a.get_id(), b.get_id(), frozenset(p.get_id() for p in pc))
        if key not in _proved:
            keep(a, b, *pc)
            t = fresh_ix()
            hyp = list(pc) + [t >= 0, t < nb]
            r = None
            if prove(hyp, body_at(a, simp(t + c), da) == body_at(b, t, db), depth + 1):
                r = z3.Implies(nb >= 0, a == z3.Sum([b] + [body_at(a, z3.IntVal(q), da) for q in range(c)]))
            elif prove(hyp, body_at(a, t, da) == body_at(b, t, db), depth + 1):
                r = z3.Implies(nb >= 0, a == z3.Sum([b] + [body_at(a, simp(nb + q), da) for q in range(c)]))
            _proved[key] = r
        if _proved[key] is not None:
            out.append(_proved[key])
    for t in terms:
        d = agg_of(t)
        if d.kind not in ("sum", "ksum"):
            continue
        n, _, _ = parts(t, d)
        i = fresh_ix(d.bvs[0].sort())
        hyp = list(pc) + ([z3.And(i >= 0, i < n)] if n is not None else [])
        b = body_at(t, i, d)
        if check_unsat(hyp + [b < 0], 1500):
            out.append(t >= 0)
            none = check_unsat(hyp + [b > 0], 1500)
            if none:
                out.append(t == 0)
            else:
                # some summand is positive exactly where the total is
                for u in terms:
                    du = agg_of(u)
                    if du.kind != ("any" if n is not None else "kany") or n is not None and not simp(u.arg(0)).eq(simp(n)) \
                            or du.bvs[0].sort() != i.sort():
                        continue
                    key = ("positive", t.get_id(), u.get_id(), frozenset(p.get_id() for p in pc))
                    if key not in _proved:
                        keep(t, u, *pc)
                        cu = body_at(u, i, du)
                        _proved[key] = check_unsat(hyp + [cu != (b > 0)], 1500) or prove(hyp, cu == (b > 0), depth + 1)
                    if _proved[key]:
                        out.append(u == (t > 0))
            if n is not None and not none:
                ints, _ = index_terms(list(subnodes([t] + list(pc)).values()))
                cand = list(ints)
                for u in agg_terms([t] + [body_at(t, i, d)] + list(pc)):
                    if agg_of(u).kind in ("max", "min") and not has_const([u], i):
                        cand.append(argpos(u))
                for c in cand[:10]:
                    if has_const([c], i):
                        continue
                    out.append(z3.Implies(z3.And(c >= 0, c < n), t >= body_at(t, c, d)))
            if n is not None and check_unsat(hyp + [b <= 0], 1500):
                out.append(z3.Implies(n > 0, t > 0))
            if n is None:
                out.append(z3.BoolVal(True))
        elif check_unsat(hyp + [b > 0], 1500):
            out.append(t <= 0)
        # nothing is added where no element meets a condition
        for u in terms:
            du = agg_of(u)
            if du.kind == ("any" if n is not None else "kany") and du.bvs[0].sort() == i.sort() and (n is None or simp(u.arg(0)).eq(simp(n))):
                key = ("nothing", t.get_id(), u.get_id(), frozenset(p.get_id() for p in pc))
                if key not in _proved:
                    keep(t, u, *pc)
                    _proved[key] = check_unsat(hyp + [z3.Not(body_at(u, i, du)), b != 0], 1500)
                if _proved[key]:
                    out.append(z3.Or(u, t == 0))
        if n is not None and d.kind == "sum":
            # additive splitting of the body
            bb = simp(b)
            if z3.is_add(bb):
                out.append(t == z3.Sum([mk_sum(n, i, ch) for ch in bb.children()]))
            if LIMITS["shares"] and t.sort() == REAL:
                out += share_facts(t, n, i, bb, hyp, depth)
    return out


def share_facts(t, n, i, b, hyp, depth):
    """For sums of shares: conditions that do not depend on the index, the order of two
    sums, and totals of summands that are all 1 (or at most 1)."""
    out = []
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and not has_const([b.arg(0)], i):
        out.append(t == z3.If(b.arg(0), mk_sum(n, i, b.arg(1)), mk_sum(n, i, b.arg(2))))
    d = agg_of(b)
    if d is not None and d.kind == "sum" and has_const([b], i):
        m, _, _ = parts(b, d)
        if not has_const([m], i):
            j = fresh_ix()
            out.append(t == mk_sum(m, j, mk_sum(n, i, body_at(b, j, d))))
    if depth <= 1 and z3.is_app(n):
        key = ("shares", t.get_id(), frozenset(p.get_id() for p in hyp if not has_const([p], i)))
        if key not in _proved:
            keep(t, *hyp)
            top = z3.ToReal(n)
            if prove(hyp, b <= 1, depth + 1):
                _proved[key] = z3.Implies(n >= 0, t == top if prove(hyp, b == 1, depth + 1) else t <= top)
            else:
                _proved[key] = None
        if _proved[key] is not None:
            out.append(_proved[key])
    return out


def first_ite_cond(g):
    stack, seen = [g], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE:
                return e.arg(0)
            stack.extend(e.children())
    return None


def cases(pc, g, depth, timeout, left=3):
    """Split on up to three plain atoms (no aggregates, no transcendental terms) that
    conditions of the goal test; None when there are none."""
    at = None
    for u in subterms([g]).values():
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
            for c in atoms(u.arg(0)):
                sub = subterms([c]).values()
                if not any(z3.is_app(v) and (v.decl().kind() == z3.Z3_OP_ITE or v.num_args() and v.decl().name() in ("EXP", "LOG", "SQRT") or agg_of(v) is not None) for v in sub):
                    if at is None or len(str(c)) < len(str(at)):
                        at = c
    if at is None or left == 0:
        return None
    for c, val in ((at, True), (z3.Not(at), False)):
        if check_unsat(pc + [c], timeout):
            continue
        h = ite_assume(g, at, val)
        if z3.is_true(h):
            continue
        r = cases(pc + [c], h, depth, timeout, left - 1)
        if r is None:
            r = prove(pc + [c], h, depth + 1, timeout)
        if not r:
            return False
    return True


def atoms(c):
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
        return [a for x in c.children() for a in atoms(x)]
    return [] if z3.is_true(c) or z3.is_false(c) else [c]


def ite_assume(g, c, val):
    return simp(z3.substitute(g, (c, z3.BoolVal(val))))
