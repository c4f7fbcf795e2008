"""Built-in functions, methods of built-in types, and the library modules the code uses."""
import math as _math

import z3

from . import logic
from .interp import (ANY, BoundMethod, Builtin, ClassVal, Env, FuncVal, LibClass, ModuleVal, Partial, PropertyVal,
                     PyRaise, StaticVal, TypeVal, clone, native)
from .logic import EXP, EXP_MAX, F32, F32_MAX, LOG, SQRT, mk_agg, mk_any, mk_kany, mk_ksum, mk_sum
from .loops import map_seq, reduce_seq
from .seqs import leaves, merge2, norm_seq, reify_seq, same, seq_at, seq_len, sub, zobj
from .values import *
from .values import FIN, NAN, NINF, PINF


def UF(name, *sorts):
    return z3.Function(name, *sorts)


# ------------------------------------------------------------------ numbers
def num_sum(ip, s, start=0):
    """Sum of a sequence of numbers."""
    s = norm_seq(s)
    if isinstance(s, Ex):
        r = start
        for x in s.elems:
            r = ip.binop("+", r, x)
        return r
    if isinstance(s, Cat):
        r = start
        for p in s.parts:
            r = num_sum(ip, p, r)
        return r
    if isinstance(s, Tab):
        gens, cond, body = [("r", s.i, s.n)], z3.BoolVal(True), s.body
    elif isinstance(s, Comp):
        gens, cond, body = s.gens, s.cond, s.body
    else:
        raise Unsupported("sum of %r" % (s,))
    if isinstance(body, NpS):
        body = body.v
    if isinstance(body, Choice):
        body = flatten_num(body)
    if not is_num(body):
        if isinstance(body, (SObj, str, SStr, ListVal, tuple)) or body is None:
            if ip.branch(ip.seq_any(s, lambda x: z3.BoolVal(True))):
                raise PyRaise(TypeError, ("sum",))
            return start
        raise Unsupported("sum of %r" % (body,))
    isint = isinstance(body, (int, bool, SInt, SBool)) and not isinstance(body, float)
    e = zint(body) if isint else zreal(body)
    k = fkind(body)

    def close(c, e):
        t = z3.If(c, e, z3.IntVal(0) if isint else z3.RealVal(0)) if not z3.is_true(c) else e
        for g in reversed(gens):
            t = mk_sum(g[2], g[1], t) if g[0] == "r" else mk_ksum(g[1], g[2], t)
        return t

    def exists(c):
        c = z3.And(cond, c)
        for g in reversed(gens):
            c = mk_any(g[2], g[1], c) if g[0] == "r" else mk_kany(g[1], g[2], c)
        return c

    if k is None:
        t = close(simp(cond), e)
        return ip.binop("+", start, mkint(t) if isint else SFl(simp(t)))
    kz = zkind(body)
    if ip.branch(exists(kz != FIN)):
        hasnan, haspos, hasneg = exists(kz == NAN), exists(kz == PINF), exists(kz == NINF)
        return SFl(z3.RealVal(0), simp(z3.If(z3.Or(hasnan, z3.And(haspos, hasneg)), z3.IntVal(NAN), z3.If(haspos, z3.IntVal(PINF), z3.IntVal(NINF)))))
    return ip.binop("+", start, SFl(simp(close(simp(cond), e))))


def flatten_num(c):
    if isinstance(c, Choice):
        return merge2(c.cond, flatten_num(c.a), flatten_num(c.b))
    return c


def extremum(ip, kind, s, default=None, has_default=False, key=None):
    s = norm_seq(s)
    if isinstance(s, Cat) and all(isinstance(p, Ex) for p in s.parts):
        s = Ex([x for p in s.parts for x in p.elems])
    if isinstance(s, Ex):
        if not s.elems:
            if has_default:
                return default
            raise PyRaise(ValueError, ("%s() arg is an empty sequence" % kind,))
        if key is not None:
            best, bk = s.elems[0], ip.call(key, [s.elems[0]], {})
            for x in s.elems[1:]:
                xk = ip.call(key, [x], {})
                import ast as _a

                if ip.truth(ip.compare(_a.Gt() if kind == "max" else _a.Lt(), xk, bk)):
                    best, bk = x, xk
            return best
        if len(s.elems) == 1:
            return s.elems[0]
        if all(native(x) for x in s.elems):
            try:
                return (max if kind == "max" else min)(s.elems)
            except TypeError:
                raise PyRaise(TypeError)
        if all(is_num(x) and fkind(x) is None for x in s.elems):
            # as an aggregate over positions, so that it can meet a symbolic list
            ints = all(isinstance(x, (int, SInt, SBool)) for x in s.elems)
            r = s.elems[0]
            for x in s.elems[1:]:
                import ast as _a

                c = ip.order(_a.Gt if kind == "max" else _a.Lt, x, r)
                r = merge2(zbool(c), x, r)
            return r
        import ast as _a

        r = s.elems[0]
        for x in s.elems[1:]:
            if ip.truth(ip.order(_a.Gt if kind == "max" else _a.Lt, x, r)):
                r = x
        return r
    empty = z3.Not(ip.seq_any(s, lambda x: z3.BoolVal(True)))
    if ip.branch(empty):
        if has_default:
            return default
        raise PyRaise(ValueError, ("%s() arg is an empty sequence" % kind,))
    parts = s.parts if isinstance(s, Cat) else [s]
    if key is not None:
        if len(parts) == 1 and isinstance(s, Tab):
            ks = map_seq(ip, s, lambda x: ip.call(key, [x], {}))
            if isinstance(ks.body, tuple):
                return seq_at(s, lex_pos(ip, kind, ks))
            mx = extremum(ip, kind, ks)
            pos = logic.mk_where("first", ks.n, ks.i, ip.eq_cond(ks.body, mx))
            return seq_at(s, pos)
        raise Unsupported("%s with key" % kind)
    if isinstance(s, Tab) and isinstance(s.body, tuple):
        return seq_at(s, lex_pos(ip, kind, s))
    rs = []
    for p in parts:
        if isinstance(p, Ex):
            rs += p.elems
            continue
        if len(parts) > 1 and ip.branch(z3.Not(ip.seq_any(p, lambda x: z3.BoolVal(True)))):
            continue
        rs.append(extr_part(ip, kind, p))
    if len(rs) == 1:
        return rs[0]
    return extremum(ip, kind, Ex(rs))


def lex_pos(ip, kind, s):
    """Position of the largest (smallest) of pairs (value, position or minus position)."""
    if len(s.body) != 2:
        raise Unsupported("%s of tuples" % kind)
    a, b = s.body
    if isinstance(b, SInt):
        up = z3.simplify(b.e - s.i)
        down = z3.simplify(b.e + s.i)
        if not logic.has_const([up], s.i) or not logic.has_const([down], s.i):
            mx = extremum(ip, kind, Tab(s.n, s.i, a))
            later = (not logic.has_const([up], s.i)) == (kind == "max")
            return logic.mk_where("last" if later else "first", s.n, s.i, ip.eq_cond(a, mx))
    raise Unsupported("%s of tuples" % kind)


def extr_part(ip, kind, p):
    body = p.body
    if isinstance(body, NpS):
        body = body.v
    if isinstance(body, Choice):
        body = flatten_num(body)
    if body is None or not is_num(body):
        raise Unsupported("%s of %r" % (kind, p))
    if fkind(body) is not None:
        kz = zkind(body)
        def exists(c):
            return ip.seq_any(p, lambda x: c if same(x, p.body) else z3.substitute(c))
        if isinstance(p, Tab):
            if ip.branch(mk_any(p.n, p.i, kz == NAN)):
                raise Unsupported("%s with nan" % kind)
            hi, lo = (PINF, NINF) if kind == "max" else (NINF, PINF)
            if ip.branch(mk_any(p.n, p.i, kz == hi)):
                return float("inf") if hi == PINF else -float("inf")
            if not ip.branch(mk_any(p.n, p.i, kz == FIN)):
                return float("inf") if lo == PINF else -float("inf")
            if ip.branch(mk_any(p.n, p.i, kz == lo)):
                raise Unsupported("%s with infinities" % kind)
            body = SFl(zreal(body))
        else:
            raise Unsupported("%s with infinities" % kind)
    isint = isinstance(body, (int, SInt, SBool))
    e = zint(body) if isint else zreal(body)
    if isinstance(p, Tab) or isinstance(p, Comp) and len(p.gens) == 1 and p.gens[0][0] == "r" and z3.is_true(simp(p.cond)):
        i, n = (p.i, p.n) if isinstance(p, Tab) else (p.gens[0][1], p.gens[0][2])
        if not logic.has_const([simp(e)], i):
            return mkint(e) if isint else SFl(simp(e))
        t = mk_agg(kind, e.sort(), [i], [e], n=n)
    elif isinstance(p, Comp) and len(p.gens) == 1:
        g = p.gens[0]
        dom = g[2] if g[0] == "k" else z3.And(g[1] >= 0, g[1] < g[2])
        h = simp(z3.And(dom, p.cond))
        t = mk_agg("k" + kind, e.sort(), [g[1]], [h, z3.If(h, e, z3.IntVal(0) if isint else z3.RealVal(0))])
    else:
        raise Unsupported("%s of %r" % (kind, p))
    return mkint(t) if isint else SFl(t)


def as_num(ip, v):
    v = ip.force(v)
    if isinstance(v, NpS):
        v = v.v
    return v


def math_arg(ip, v):
    v = as_num(ip, v)
    if not is_num(v):
        if isinstance(v, SObj) and v.tag not in ("str", "bytes"):
            raise Unsupported("math function of an opaque value")
        raise PyRaise(TypeError, ("must be real number",))
    return ip.split_kind(v) if fkind(v) is not None else v


def m_exp(ip, args, kw):
    x = math_arg(ip, args[0])
    if native(x):
        if isinstance(x, float) and (_math.isnan(x) or _math.isinf(x)):
            return _math.exp(x)
        if x == 0:
            return 1.0
    e = simp(zreal(x))
    if ip.branch(e > EXP_MAX):
        raise PyRaise(OverflowError, ("math range error",))
    return SFl(logic.exp_term(e))


def m_log(ip, args, kw):
    x = math_arg(ip, args[0])
    if len(args) > 1:
        raise Unsupported("log with a base")
    if native(x):
        if isinstance(x, float) and (_math.isnan(x) or x == _math.inf):
            return x
        if x <= 0:
            raise PyRaise(ValueError, ("math domain error",))
        if x == 1:
            return 0.0
    e = simp(zreal(x))
    if ip.branch(e <= 0):
        raise PyRaise(ValueError, ("math domain error",))
    return SFl(LOG(e))


def m_sqrt(ip, args, kw):
    x = math_arg(ip, args[0])
    if native(x):
        if isinstance(x, float) and (_math.isnan(x) or x == _math.inf):
            return x
        if x < 0:
            raise PyRaise(ValueError, ("math domain error",))
        r = _math.isqrt(int(x)) if x == int(x) else None
        if r is not None and r * r == x:
            return float(r)
    e = simp(zreal(x))
    if ip.branch(e < 0):
        raise PyRaise(ValueError, ("math domain error",))
    return SFl(SQRT(e))


def kind_test(*kinds):
    def f(ip, args, kw):
        v = as_num(ip, args[0])
        if not is_num(v):
            if isinstance(v, SObj) and v.tag not in ("str", "bytes"):
                raise Unsupported("math function of an opaque value")
            raise PyRaise(TypeError, ("must be real number",))
        k = fkind(v)
        if k is None:
            return FIN in kinds
        if isinstance(k, int):
            return k in kinds
        return mkbool(z3.Or([k == c for c in kinds]))

    return f


def b_abs(ip, args, kw):
    v = as_num(ip, args[0])
    if native(v) and is_num(v):
        return abs(v)
    if isinstance(v, (SInt, SBool)):
        e = zint(v)
        return mkint(z3.If(e < 0, -e, e))
    if isinstance(v, SFl):
        e = simp(z3.If(v.e < 0, -v.e, v.e))
        if v.k is None:
            return SFl(e)
        return SFl(e, simp(z3.If(v.k == NINF, z3.IntVal(PINF), v.k)))
    raise PyRaise(TypeError, ("abs",))


def b_int(ip, args, kw):
    if not args:
        return 0
    v = as_num(ip, args[0])
    if native(v):
        try:
            return int(v, *args[1:])
        except (ValueError, OverflowError, TypeError) as ex:
            raise PyRaise(type(ex), ex.args)
    if isinstance(v, (SInt, SBool)):
        return mkint(zint(v))
    if isinstance(v, SFl):
        if v.k is not None:
            v = ip.split_kind(v)
            if native(v):
                raise PyRaise(OverflowError if _math.isinf(v) else ValueError)
        e = v.e
        # trunc
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
            return mkint(e.arg(0))
        if z3.is_div(e) or z3.is_mul(e):
            q = int_quotient(e)
            if q is not None:
                x, d = q
                if ip.entails(x >= 0):
                    return mkint(x / d)
                return mkint(z3.If(x >= 0, x / d, -((-x) / d)))
        return mkint(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if isinstance(v, SObj) and int_part(v.e) is not None:
        return mkint(int_part(v.e))
    if isinstance(v, (SObj, SStr)):
        t = UF("int_of_str", Obj, INT)(zobj(v))
        ok = UF("is_int_str", Obj, BOOL)(zobj(v))
        if not ip.branch(ok):
            raise PyRaise(ValueError, ("int",))
        return SInt(t)
    raise PyRaise(TypeError, ("int",))


def int_quotient(e):
    """(x, d) when e is x / d for an Int x and a positive integer literal d."""
    if z3.is_mul(e) and len(e.children()) == 2 and z3.is_rational_value(e.arg(0)):
        f = e.arg(0).as_fraction()
        if f.numerator == 1 and z3.is_app(e.arg(1)) and e.arg(1).decl().kind() == z3.Z3_OP_TO_REAL:
            return e.arg(1).arg(0), z3.IntVal(f.denominator)
    return None


def b_float(ip, args, kw):
    if not args:
        return 0.0
    v = as_num(ip, args[0])
    if native(v):
        try:
            return float(v)
        except (ValueError, TypeError, OverflowError) as ex:
            raise PyRaise(type(ex), ex.args)
    if isinstance(v, (SInt, SBool)):
        return SFl(simp(zreal(v)))
    if isinstance(v, SFl):
        return v
    if isinstance(v, (SObj, SStr)):
        if isinstance(v, SObj) and v.tag not in ("str",):
            raise Unsupported("float of an opaque value")
        if z3.is_app(zobj(v)) and zobj(v).decl().name() == "repr_of_real":
            return SFl(zobj(v).arg(0))
        t = UF("float_of_str", Obj, REAL)(zobj(v))
        ok = UF("is_float_str", Obj, BOOL)(zobj(v))
        if not ip.branch(ok):
            raise PyRaise(ValueError, ("float",))
        return SFl(t)
    raise PyRaise(TypeError, ("float",))


def b_bool(ip, args, kw):
    if not args:
        return False
    v = ip.force(args[0])
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return mkbool(v.e != 0)
    if isinstance(v, SFl) and v.k is None:
        return mkbool(v.e != 0)
    return ip.truth(v)


def b_str(ip, args, kw):
    if not args:
        return ""
    return ip.to_str(args[0])


def b_list(ip, args, kw):
    if not args:
        return ListVal(Ex([]))
    return ListVal(ip.to_seq(args[0]))


def b_tuple(ip, args, kw):
    if not args:
        return ()
    s = ip.to_seq(args[0])
    if isinstance(s, Ex):
        return tuple(s.elems)
    return ListVal(s, "tuple")


def b_dict(ip, args, kw):
    d = DictVal(CMap({}))
    if args:
        v = ip.force(args[0])
        if isinstance(v, DictVal):
            d = DictVal(v.map)
        else:
            d = ip.dict_from_pairs(ip.to_seq(v))
    for k, v in kw.items():
        ip.dict_set(d, k, v)
    return d


def b_set(ip, args, kw):
    if not args:
        return SetVal(Ex([]))
    s = ip.to_seq(args[0])
    b = getattr(s, "body", None)
    if isinstance(b, (ListVal, DictVal)) or isinstance(s, Ex) and any(isinstance(x, (ListVal, DictVal)) for x in s.elems):
        raise PyRaise(TypeError, ("unhashable",))
    return SetVal(s)


def b_bytearray(ip, args, kw):
    if not args:
        return ListVal(Ex([]))
    v = ip.force(args[0])
    if isinstance(v, (bytes,)):
        return ListVal(Ex(list(v)))
    if isinstance(v, SObj) and v.tag == "bytes":
        n = UF("bytes_len", Obj, INT)(v.e)
        at = UF("byte_at", Obj, INT, INT)
        logic.AXIOMS.setdefault("bytes_len", [lambda o: UF("bytes_len", Obj, INT)(o) >= 0])
        logic.AXIOMS.setdefault("byte_at", [lambda o, i: z3.And(at(o, i) >= 0, at(o, i) < 256)])
        i = ip.fresh()
        return ListVal(Tab(n, i, SInt(at(v.e, i))))
    if isinstance(v, ListVal):
        return ListVal(ip.to_seq(v))
    if isinstance(v, (str, SStr)) or isinstance(v, SObj) and v.tag == "str":
        raise PyRaise(TypeError, ("string argument without an encoding",))
    raise Unsupported("bytearray of %r" % (v,))


# ------------------------------------------------------------------ sequences
def b_range(ip, args, kw):
    args = [as_num(ip, a) for a in args]
    for a in args:
        if not isinstance(a, (int, SInt, SBool)):
            raise PyRaise(TypeError, ("range",))
    args = [mkint(zint(a)) if isinstance(a, (bool, SBool)) else a for a in args]
    if len(args) == 1:
        return RangeVal(0, args[0])
    if len(args) == 3 and args[2] == 0:
        raise PyRaise(ValueError, ("range() arg 3 must not be zero",))
    return RangeVal(*args)


def b_enumerate(ip, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    return IterVal(enum_seq(ip, ip.to_seq(args[0]), start))


def enum_seq(ip, s, start=0):
    if isinstance(s, Ex):
        return Ex([(ip.binop("+", start, k), x) for k, x in enumerate(s.elems)])
    if isinstance(s, Tab):
        return Tab(s.n, s.i, (ip.binop("+", start, SInt(s.i)), s.body))
    n = seq_len(s)
    if n is None:
        raise Unsupported("enumerate")
    if isinstance(s, Cat):
        out, off = [], start
        for p in s.parts:
            out.append(enum_seq(ip, p, off))
            off = ip.binop("+", off, mkint(seq_len(p)))
        return Cat(out)
    i = ip.fresh()
    x = seq_at(s, i)
    if x is None:
        raise Unsupported("enumerate of %r" % (s,))
    return Tab(n, i, (ip.binop("+", start, SInt(i)), x))


def zip_seqs(ip, seqs):
    if not seqs:
        return Ex([])
    if all(isinstance(s, Ex) for s in seqs):
        return Ex([tuple(t) for t in zip(*[s.elems for s in seqs])])
    ns = [seq_len(s) for s in seqs]
    if any(n is None for n in ns):
        raise Unsupported("zip of %r" % (seqs,))
    n = ns[0]
    for m in ns[1:]:
        if not n.eq(m) and not ip.entails(n == m):
            if ip.entails(n <= m):
                continue
            if ip.entails(m <= n):
                n = m
                continue
            n = n if ip.branch(n <= m) else m
    c = const(simp(n))
    if c is not None:
        return Ex([tuple(seq_at(s, z3.IntVal(k)) for s in seqs) for k in range(c)])
    i = ip.fresh()
    xs = [seq_at(s, i) for s in seqs]
    if any(x is None for x in xs):
        raise Unsupported("zip of %r" % (seqs,))
    return Tab(n, i, tuple(xs))


def b_zip(ip, args, kw):
    return IterVal(zip_seqs(ip, [ip.to_seq(a) for a in args]))


def b_zipstar(ip, args, kw):
    """zip(*rows): the columns of a list of rows of one length."""
    s = args[0]
    if isinstance(s, Comp) or isinstance(s, Cat) and any(isinstance(q, Comp) for q in s.parts):
        return zipstar_kept(ip, s)
    if isinstance(s, Cat):
        s = whole_tab(ip, s)
    if not isinstance(s, Tab):
        raise Unsupported("zip(*...)")
    if not ip.branch(s.n > 0):
        return IterVal(Ex([]))
    row = ip.force_body(s) if hasattr(ip, "force_body") else s.body
    row = as_list(ip, row)
    rs = ip.to_seq(row)
    m = seq_len(rs)
    if m is None:
        raise Unsupported("zip(*...)")
    if logic.has_const([m], s.i):
        # the shortest row decides; all rows must be as long as the first
        m0 = simp(z3.substitute(m, (s.i, z3.IntVal(0))))
        ip.pc.append(z3.And(s.i >= 0, s.i < s.n))
        ok = ip.entails(m == m0)
        ip.pc.pop()
        if not ok:
            raise Unsupported("zip(*...) of ragged rows")
        m = m0
    c = const(simp(m))
    if c is not None:
        cols = []
        for k in range(c):
            cols.append(ListVal(Tab(s.n, s.i, seq_at(rs, z3.IntVal(k))), "tuple"))
        return IterVal(Ex(cols))
    j = ip.fresh()
    return IterVal(Tab(m, j, ListVal(Tab(s.n, s.i, seq_at(rs, j)), "tuple")))


def zipstar_kept(ip, s):
    """The columns of the rows a filter keeps, when all have the same length."""
    if not ip.branch(zint(ip.length(ListVal(s))) > 0):
        return IterVal(Ex([]))
    parts = s.parts if isinstance(s, Cat) else [s]
    width = None
    for q in parts:
        for row, bound in [(q.body, [g[1] for g in q.gens] if isinstance(q, Comp) else [q.i])] if not isinstance(q, Ex) else [(x, []) for x in q.elems]:
            m = seq_len(ip.to_seq(as_list(ip, row)))
            if m is None or any(logic.has_const([m], b) for b in bound) or width is not None and not ip.entails(m == width):
                raise Unsupported("zip(*...) of kept rows")
            width = m

    def column(j):
        out = []
        for q in parts:
            at = lambda row: seq_at(ip.to_seq(as_list(ip, row)), j)
            out.append(Ex([at(x) for x in q.elems]) if isinstance(q, Ex) else Comp(q.gens, q.cond, at(q.body)) if isinstance(q, Comp) else Tab(q.n, q.i, at(q.body)))
        return ListVal(out[0] if len(out) == 1 else Cat(out), "tuple")

    c = const(simp(width))
    if c is not None:
        return IterVal(Ex([column(z3.IntVal(k)) for k in range(c)]))
    j = ip.fresh()
    return IterVal(Tab(width, j, column(j)))


def as_list(ip, v):
    if isinstance(v, tuple):
        return ListVal(Ex(list(v)), "tuple")
    return v


def whole_tab(ip, s):
    n = seq_len(s)
    i = ip.fresh()
    x = seq_at(s, i)
    if n is None or x is None:
        raise Unsupported("sequence %r" % (s,))
    return Tab(n, i, x)


def b_map(ip, args, kw):
    f = args[0]
    seqs = [ip.to_seq(a) for a in args[1:]]
    if len(seqs) == 1:
        return IterVal(map_seq(ip, seqs[0], lambda x: ip.call(f, [x], {})))
    z = zip_seqs(ip, seqs)
    return IterVal(map_seq(ip, z, lambda t: ip.call(f, list(t), {})))


def b_filter(ip, args, kw):
    f = args[0]
    from .loops import SKIP

    def fn(x):
        ok = ip.truth(x if f is None else ip.call(f, [x], {}))
        return x if ok else SKIP

    return IterVal(map_seq(ip, ip.to_seq(args[1]), fn))


def b_sum(ip, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    v = ip.force(args[0])
    return num_sum(ip, ip.to_seq(v), start)


def b_max(kind):
    def f(ip, args, kw):
        key = kw.get("key")
        if len(args) == 1:
            return extremum(ip, kind, ip.to_seq(args[0]), kw.get("default"), "default" in kw, key)
        return extremum(ip, kind, Ex([as_num(ip, a) for a in args]), key=key)

    return f


def b_any(isany):
    def f(ip, args, kw):
        s = norm_seq(ip.to_seq(args[0]))
        if isinstance(s, Ex):
            r = not isany
            for x in s.elems:
                x = ip.force(x)
                if isinstance(x, SBool):
                    r = mkbool(z3.Or(zbool(r), x.e) if isany else z3.And(zbool(r), x.e))
                elif ip.truth(x) == isany:
                    return isany
            return r
        t = map_seq(ip, s, lambda x: mkbool(ip.as_cond(x)))
        c = ip.seq_any(t, lambda x: zbool(x) if isany else z3.Not(zbool(x)))
        return mkbool(c if isany else z3.Not(c))

    return f


def b_sorted(ip, args, kw):
    s = norm_seq(ip.to_seq(args[0]))
    key, rev = kw.get("key"), kw.get("reverse", False)
    return ListVal(sorted_seq(ip, s, key, ip.truth(rev)))


def sorted_seq(ip, s, key, rev):
    if isinstance(s, Ex):
        if all(native(x) for x in s.elems) and key is None:
            try:
                return Ex(sorted(s.elems, reverse=rev))
            except TypeError:
                raise PyRaise(TypeError)
        if len(s.elems) <= 1:
            return s
        i = ip.fresh()
        s = Tab(z3.IntVal(len(s.elems)), i, seq_at(s, i))
    if isinstance(s, Cat):
        s = whole_tab(ip, s)
    if isinstance(s, Comp) and len(s.gens) == 1 and s.gens[0][0] == "k" and key is None:
        # the sorted keys of a dict
        ls, tag = leaves(s.body)
        n = seq_len(s)
        p = ip.fresh()
        if len(ls) == 1 and ls[0].sort() == Obj:
            t = mk_agg("perm", Obj, [s.gens[0][1]], [z3.And(s.gens[0][2], s.cond), ls[0]], extra=[p], aux="keys" + str(rev))
            return Tab(n, p, SObj(t, "str"))
        raise Unsupported("sorted of dict keys")
    if not isinstance(s, Tab):
        raise Unsupported("sorted of %r" % (s,))
    ks = s if key is None else map_seq(ip, s, lambda x: ip.call(key, [x], {}))
    if not isinstance(ks, Tab):
        raise Unsupported("sorted keys %r" % (ks,))
    kb = sub(ks.body, [(ks.i, s.i)])
    ls, tag = leaves(kb)
    p = ip.fresh()
    pos = mk_agg("perm", INT, [s.i], ls, n=s.n, extra=[p], aux=tag + str(rev))
    return Tab(s.n, p, sub(s.body, [(s.i, pos)]))


def b_reversed(ip, args, kw):
    v = ip.force(args[0])
    s = norm_seq(ip.to_seq(v))
    return IterVal(rev_seq(ip, s))


def rev_seq(ip, s):
    if isinstance(s, Ex):
        return Ex(s.elems[::-1])
    n = seq_len(s)
    i = ip.fresh()
    x = None if n is None else seq_at(s, simp(n - 1 - i))
    if x is None:
        raise Unsupported("reversed %r" % (s,))
    return Tab(n, i, x)


def b_len(ip, args, kw):
    return ip.length(args[0])


def b_iter(ip, args, kw):
    v = ip.force(args[0])
    if isinstance(v, IterVal):
        return v
    return IterVal(ip.to_seq(v))


def b_next(ip, args, kw):
    v = ip.force(args[0])
    if not isinstance(v, IterVal):
        raise PyRaise(TypeError, ("not an iterator",))
    s = norm_seq(v.seq)
    if v.used:
        s = Ex([])
    if ip.branch(z3.Not(ip.seq_any(s, lambda x: z3.BoolVal(True)))):
        if len(args) > 1:
            return args[1]
        raise PyRaise(StopIteration)
    x = seq_at(s, z3.IntVal(0))
    if x is None:
        raise Unsupported("next")
    if isinstance(s, Ex):
        rest = Ex(s.elems[1:])
    else:
        n, i = seq_len(s), ip.fresh()
        y = seq_at(s, i + 1)
        rest = Tab(simp(n - 1), i, y)
    if ip.templates and v.serial <= ip.templates[-1][0]:
        raise Unsupported("iterator advanced inside a loop it was made outside of")
    if v.serial <= ip.mark:
        ip.log.append(("attr", v, "seq", v.seq))
    v.seq = rest
    return x


# ------------------------------------------------------------------ types
PYTYPES = {"int": int, "float": float, "str": str, "bool": bool, "list": list, "tuple": tuple, "dict": dict, "set": set,
           "frozenset": frozenset, "bytes": bytes, "bytearray": bytearray, "object": object, "type": type}


class TypeUnknown(Unsupported):
    pass


def type_of(ip, v):
    v = ip.force(v)
    if v is None:
        return type(None)
    if native(v):
        return type(v)
    if isinstance(v, SInt):
        return int
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SFl):
        return float
    if isinstance(v, SStr):
        return str
    if isinstance(v, tuple):
        return tuple
    if isinstance(v, SObj):
        if v.tag == "str":
            return str
        if v.tag == "bytes":
            return bytes
        if v.tag in ("label", "obj", "cat"):
            return TypeVal("builtins", "scalar")
        if v.tag in ANY:
            ks = any_kinds(v.tag)
            for k in range(len(ks) - 1):
                if ip.branch(any_kind(v) == k):
                    return ks[k]
            return ks[-1]
        raise Unsupported("type of an opaque value")
    if isinstance(v, ListVal):
        if v.cls is not None:
            return v.cls
        return tuple if v.kind == "tuple" else list
    if isinstance(v, DictVal):
        return dict
    if isinstance(v, SetVal):
        return set
    if isinstance(v, ObjVal):
        return v.cls
    if isinstance(v, NpS):
        base = {"float64": float, "str_": str, "bytes_": bytes}.get(v.np)
        return TypeVal("numpy", v.np, base)
    if isinstance(v, NdArr):
        return TypeVal("numpy", "ndarray")
    if isinstance(v, (type, ClassVal, LibClass, TypeVal)):
        return type
    if isinstance(v, (FuncVal, BoundMethod, Builtin, Partial)):
        return TypeVal("builtins", {"FuncVal": "function", "BoundMethod": "method", "Builtin": "builtin_function_or_method",
                                    "Partial": "partial"}[type(v).__name__])
    if isinstance(v, ModuleVal):
        return TypeVal("builtins", "module")
    if isinstance(v, IterVal):
        return TypeVal("builtins", "generator")
    if isinstance(v, RangeVal):
        return TypeVal("builtins", "range")
    raise Unsupported("type of %r" % (v,))


SCALARS = (int, float, str)


def scalar_kind(e):
    """Which of int, float, str an opaque label is."""
    f = UF("pytype", Obj, INT)
    logic.AXIOMS.setdefault("pytype", [lambda o: z3.And(f(o) >= 0, f(o) <= 2)])
    return f(e)


# a value of a tag in ANY: its type is one of these; the first five are plain data, the last three
# containers
ANY_KINDS = [int, float, str, bool, type(None), TypeVal("numpy", "float64", float), TypeVal("numpy", "str_", str), TypeVal("numpy", "int64"),
             TypeVal("builtins", "object"), TypeVal("sklearn.other", "Other"), list, tuple, dict]


def any_kinds(tag):
    return ANY_KINDS if tag == "any" else ANY_KINDS[:-3] if tag == "leaf" else [float] + ANY_KINDS[5:10:4]


def any_kind(v):
    f = UF("kind_" + v.tag, Obj, INT)
    n = len(any_kinds(v.tag))
    logic.AXIOMS.setdefault("kind_" + v.tag, [lambda o: z3.And(f(o) >= 0, f(o) < n)])
    return f(v.e)


def is_plain(v):
    """Whether an opaque value is plain data all the way down."""
    k = any_kind(v)
    if v.tag != "any":
        return k < (5 if v.tag == "leaf" else 1)
    f, g = UF("plain_any", Obj, BOOL), UF("kind_any", Obj, INT)
    logic.AXIOMS.setdefault("plain_any", [lambda o: z3.And(z3.Implies(g(o) < 5, f(o)), z3.Implies(z3.And(g(o) >= 5, g(o) < 10), z3.Not(f(o))))])
    return f(v.e)


def subtype(t, c):
    if c is object:
        return True
    if isinstance(t, TypeVal):
        return t.base is not None and isinstance(c, type) and issubclass(t.base, c) or (
            isinstance(c, TypeVal) and (c.module, c.name) == (t.module, t.name))
    return isinstance(c, type) and issubclass(t, c)


def is_instance(ip, v, c):
    v = ip.force(v)
    if isinstance(v, SObj) and v.tag in ANY:
        cs = [ip.force(x) for x in (ip.explicit(c) if isinstance(c, (tuple, ListVal)) else [c])]
        if any(isinstance(x, (AbcVal, tuple, ListVal)) for x in cs):
            raise Unsupported("abstract type of an opaque value")
        hit = [k for k, t in enumerate(any_kinds(v.tag)) if any(subtype(t, x) for x in cs)]
        return ip.branch(z3.Or([any_kind(v) == k for k in hit])) if hit else False
    if isinstance(v, SObj) and v.tag in ("label", "obj", "cat"):
        cs = list(c) if isinstance(c, tuple) else [c]
        if object in cs or all(t in cs for t in SCALARS):
            return True
        hit = [k for k, t in enumerate(SCALARS) if t in cs]
        if not hit:
            return any(isinstance(x, AbcVal) and is_instance_abc(ip, v, x) for x in cs)
        return ip.branch(z3.Or([scalar_kind(v.e) == k for k in hit]))
    if isinstance(c, tuple):
        return any(is_instance(ip, v, x) for x in c)
    if isinstance(c, ListVal):
        return any(is_instance(ip, v, x) for x in ip.explicit(c))
    c = ip.force(c)
    v = ip.force(v)
    if isinstance(c, AbcVal):
        return c.test(ip, v)
    t = type_of(ip, v)
    if c is object:
        return True
    if isinstance(t, type):
        return isinstance(c, type) and issubclass(t, c)
    if isinstance(t, ClassVal):
        if isinstance(c, ClassVal):
            return t.is_sub(c)
        return any(isinstance(b, type) and isinstance(c, type) and issubclass(b, c) for b in t.mro())
    if isinstance(t, TypeVal):
        return t.base is not None and isinstance(c, type) and issubclass(t.base, c) or (
            isinstance(c, TypeVal) and (c.module, c.name) == (t.module, t.name))
    if isinstance(t, LibClass):
        return c is t
    return False


def is_instance_abc(ip, v, c):
    raise Unsupported("abstract type of an opaque value")


class AbcVal(V):
    def __init__(self, name, test):
        self.name, self.test = name, test


def b_isinstance(ip, args, kw):
    return is_instance(ip, args[0], args[1])


def b_type(ip, args, kw):
    return type_of(ip, args[0])


def b_issubclass(ip, args, kw):
    a, b = args
    if isinstance(b, tuple):
        return any(b_issubclass(ip, [a, x], {}) for x in b)
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    if isinstance(a, ClassVal):
        return a.is_sub(b) if isinstance(b, ClassVal) else any(isinstance(x, type) and isinstance(b, type) and issubclass(x, b) for x in a.mro())
    return False


def b_hasattr(ip, args, kw):
    return ip.hasattr(args[0], args[1])


def b_getattr(ip, args, kw):
    if len(args) == 3:
        try:
            return ip.getattr(args[0], args[1])
        except PyRaise as e:
            if e.cls is AttributeError:
                return args[2]
            raise
    return ip.getattr(args[0], args[1])


def b_setattr(ip, args, kw):
    ip.setattr(args[0], args[1], args[2])


def b_callable(ip, args, kw):
    v = ip.force(args[0])
    if isinstance(v, (FuncVal, BoundMethod, Builtin, Partial, ClassVal, type)):
        return True
    if isinstance(v, ObjVal):
        return isinstance(v.cls, ClassVal) and v.cls.lookup("__call__") is not None or v.stub is not None and hasattr(v.stub, "call")
    return False


def b_vars(ip, args, kw):
    v = ip.force(args[0])
    if isinstance(v, (ObjVal,)):
        return DictVal(CMap(v.attrs))
    if isinstance(v, ListVal) and v.cls is not None:
        return DictVal(CMap(v.attrs))
    raise PyRaise(TypeError, ("vars",))


def b_id(ip, args, kw):
    v = ip.force(args[0])
    if isinstance(v, (ListVal, DictVal, ObjVal)):
        return SInt(z3.Int("id!%d" % v.serial))
    return SInt(z3.Int("id!%r" % (v,)))


def b_import(ip, args, kw):
    name = args[0]
    m = ip.load(name)
    if kw.get("fromlist") is None and len(args) < 4:
        return ip.load(name.split(".")[0])
    return m


def b_round(ip, args, kw):
    if all(native(a) for a in args):
        return round(*args)
    raise Unsupported("round")


def b_pow(ip, args, kw):
    return ip.binop("**", args[0], args[1])


def b_divmod(ip, args, kw):
    return (ip.binop("//", args[0], args[1]), ip.binop("%", args[0], args[1]))


def b_ord(ip, args, kw):
    v = args[0]
    if native(v):
        return ord(v)
    return SInt(UF("ord", Obj, INT)(zobj(v)))


def b_repr(ip, args, kw):
    v = ip.force(args[0])
    if native(v):
        return repr(v)
    return SObj(ip.fresh(Obj, "msg"), "str")


def b_open(ip, args, kw):
    raise Unsupported("open")


def make(ip):
    fns = {
        "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "zip*": b_zipstar, "map": b_map,
        "filter": b_filter, "sum": b_sum, "max": b_max("max"), "min": b_max("min"), "any": b_any(True), "all": b_any(False),
        "sorted": b_sorted, "reversed": b_reversed, "abs": b_abs, "isinstance": b_isinstance, "issubclass": b_issubclass,
        "hasattr": b_hasattr, "getattr": b_getattr, "setattr": b_setattr, "callable": b_callable, "vars": b_vars,
        "id": b_id, "iter": b_iter, "next": b_next, "print": lambda ip, a, k: None, "repr": b_repr, "round": b_round,
        "pow": b_pow, "divmod": b_divmod, "ord": b_ord, "open": b_open, "__import__": b_import,
        "int()": b_int, "float()": b_float, "str()": b_str, "bool()": b_bool, "list()": b_list, "tuple()": b_tuple,
        "dict()": b_dict, "set()": b_set, "frozenset()": b_set, "bytearray()": b_bytearray, "type()": b_type,
        "object()": lambda ip, a, k: ObjVal(ClassVal("object", [], {}, "builtins")),
        "NoneType()": lambda ip, a, k: None,
        "property": lambda ip, a, k: PropertyVal(a[0]),
        "staticmethod": lambda ip, a, k: StaticVal(a[0]),
        "classmethod": lambda ip, a, k: _unsup("classmethod"),
    }
    out = {k: Builtin(k, f) for k, f in fns.items()}
    out.update(PYTYPES)
    import builtins

    for n in dir(builtins):
        v = getattr(builtins, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            out[n] = v
    out["__name__"] = "builtins"
    out["NotImplemented"] = NotImplemented
    return out


def _unsup(what):
    raise Unsupported(what)


# ------------------------------------------------------------------ methods
def B(name, f):
    return Builtin(name, f)


def method(ip, o, name):
    if isinstance(o, ListVal) or isinstance(o, tuple):
        return list_method(ip, o, name)
    if isinstance(o, DictVal):
        return dict_method(ip, o, name)
    if isinstance(o, (str, SStr)) or isinstance(o, SObj) and o.tag == "str":
        return str_method(ip, o, name)
    if isinstance(o, bytes) or isinstance(o, SObj) and o.tag == "bytes":
        if name == "decode":
            if native(o):
                return B(name, lambda ip, a, k: o.decode(*a, **k))
            return B(name, lambda ip, a, k: SObj(UF("decode", Obj, Obj, Obj, Obj)(o.e, zobj(a[0] if a else "utf-8"), zobj(a[1] if len(a) > 1 else "strict")), "str"))
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, NpS):
        if name == "item":
            return B(name, lambda ip, a, k: o.v)
        if name == "tolist":
            return B(name, lambda ip, a, k: o.v)
        if name == "dtype":
            return o.np
        return method(ip, o.v, name)
    if isinstance(o, NdArr):
        return array_method(ip, o, name)
    if isinstance(o, SetVal):
        return set_method(ip, o, name)
    if isinstance(o, (type, TypeVal)):
        if name == "__name__":
            return o.name if isinstance(o, TypeVal) else o.__name__
        if name == "__module__":
            return o.module if isinstance(o, TypeVal) else o.__module__
        if o is dict and name == "fromkeys":
            return B(name, fromkeys)
        if o is str:
            return B("str." + name, lambda ip, a, k: ip.call(str_method(ip, a[0], name), a[1:], k))
        if o is list and name == "__init__":
            return B(name, lambda ip, a, k: ip.list_extend(a[0], a[1]) if len(a) > 1 else None)
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, AbcVal):
        raise Unsupported("attribute of %s" % o.name)
    if isinstance(o, Builtin):
        if name == "__name__":
            return o.name
        if name == "from_iterable" and o.name == "chain":
            return B("chain.from_iterable", lambda ip, a, k: IterVal(flatten(ip, ip.to_seq(a[0]))))
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, Partial):
        if name == "func":
            return o.func
        if name == "keywords":
            return DictVal(CMap(o.kw))
        if name == "args":
            return tuple(o.args)
    if isinstance(o, SObj):
        raise Unsupported("attribute %s of an opaque value" % name)
    if isinstance(o, IterVal):
        if name == "__iter__":
            return B(name, lambda ip, a, k: o)
        if name == "__next__":
            return B(name, lambda ip, a, k: b_next(ip, [o], {}))
    if isinstance(o, (float, SFl)) and name == "is_integer":
        if native(o):
            return B(name, lambda ip, a, k: o.is_integer())
        return B(name, lambda ip, a, k: mkbool(z3.IsInt(o.e)))
    raise PyRaise(AttributeError, (name,))


def flatten(ip, s):
    from .loops import flat_map

    return flat_map(ip, s, lambda x: ip.to_seq(x))


def list_index(ip, o, x):
    s = norm_seq(ip.to_seq(o))
    if isinstance(s, Ex):
        for p, y in enumerate(s.elems):
            if ip.branch(ip.eq_cond(y, x)):
                return p
        raise PyRaise(ValueError, ("not in list",))
    if not isinstance(s, Tab):
        s = whole_tab(ip, s)
    c = ip.eq_cond(s.body, x)
    if not ip.branch(mk_any(s.n, s.i, c)):
        raise PyRaise(ValueError, ("not in list",))
    return mkint(logic.mk_where("first", s.n, s.i, c))


def list_count(ip, o, x):
    s = map_seq(ip, norm_seq(ip.to_seq(o)), lambda y: mkbool(ip.eq_cond(y, x)))
    return num_sum(ip, s)


def list_method(ip, o, name):
    if name == "index":
        return B(name, lambda ip, a, k: list_index(ip, o, a[0]))
    if name == "count":
        return B(name, lambda ip, a, k: list_count(ip, o, a[0]))
    if name == "__getitem__":
        return B(name, lambda ip, a, k: ip.get_item(o, a[0]))
    if name == "__len__":
        return B(name, lambda ip, a, k: ip.length(o))
    if name == "__iter__":
        return B(name, lambda ip, a, k: IterVal(ip.to_seq(o)))
    if name == "__contains__":
        return B(name, lambda ip, a, k: _cond(ip.contains(o, a[0])))
    if isinstance(o, tuple) or o.kind == "tuple":
        raise PyRaise(AttributeError, (name,))
    if name == "append":
        return B(name, lambda ip, a, k: ip.list_append(o, a[0]))
    if name == "extend":
        return B(name, lambda ip, a, k: ip.list_extend(o, a[0]))
    if name == "copy":
        return B(name, lambda ip, a, k: ListVal(ip.to_seq(o)))
    if name == "__setitem__":
        return B(name, lambda ip, a, k: ip.set_item(o, a[0], a[1]))
    if name == "insert":
        def insert(ip, a, k):
            s = norm_seq(ip.read_seq(o))
            if a[0] == 0:
                ip.set_field(o, "seq", norm_seq(Cat([Ex([a[1]]), s])))
                return
            if isinstance(s, Ex) and isinstance(a[0], int):
                el = list(s.elems)
                el.insert(a[0], a[1])
                ip.set_field(o, "seq", Ex(el))
                return
            raise Unsupported("insert")
        return B(name, insert)
    if name == "reverse":
        return B(name, lambda ip, a, k: ip.set_field(o, "seq", rev_seq(ip, norm_seq(ip.read_seq(o)))))
    if name == "sort":
        return B(name, lambda ip, a, k: ip.set_field(o, "seq", sorted_seq(ip, norm_seq(ip.read_seq(o)), k.get("key"), ip.truth(k.get("reverse", False)))))
    if name == "pop":
        def pop(ip, a, k):
            s = norm_seq(ip.read_seq(o))
            if isinstance(s, Ex):
                if not s.elems:
                    raise PyRaise(IndexError)
                ix = a[0] if a else -1
                if isinstance(ix, int):
                    if not -len(s.elems) <= ix < len(s.elems):
                        raise PyRaise(IndexError)
                    el = list(s.elems)
                    x = el.pop(ix)
                    ip.set_field(o, "seq", Ex(el))
                    return x
            raise Unsupported("pop")
        return B(name, pop)
    if name == "clear":
        return B(name, lambda ip, a, k: ip.set_field(o, "seq", Ex([])))
    if name in ("tolist", "shape", "item", "todense", "dtype", "keys", "items", "values", "get", "lower", "split", "transform", "predict", "predict_proba"):
        raise PyRaise(AttributeError, (name,))
    if name in dir(list):
        raise Unsupported("list.%s" % name)
    raise PyRaise(AttributeError, (name,))


def _cond(r):
    return r if isinstance(r, bool) else mkbool(r)


def dict_get_default(ip, d, k, default):
    k = ip.force(k)
    if isinstance(k, NpS):
        k = k.v
    has = ip.dict_has(d, k)
    if isinstance(has, bool):
        return ip.dict_get(d, k) if has else default
    v = ip.dict_val(d, k)
    if isinstance(d.map, SMap) and is_num(v) and not isinstance(v, (bool, SBool)) and is_num(default) and native(default) and default == 0:
        return v  # numbers are 0 where the key is absent
    if isinstance(v, (ListVal, DictVal, ObjVal)) or isinstance(default, (ListVal, DictVal, ObjVal)):
        if ip.branch(has):
            return ip.dict_get(d, k)
        return default
    if is_num(v) and is_num(default) and not isinstance(v, (bool, SBool)) and (
            isinstance(v, (float, SFl)) or isinstance(default, (float, SFl))):
        # int/float mix is the same number
        pass
    r = merge2(has, v, default)
    if isinstance(r, Choice) and not isinstance(v, Choice):
        return v if ip.branch(has) else default
    return r


def fromkeys(ip, a, k):
    s = ip.to_seq(a[0])
    v = a[1] if len(a) > 1 else None
    return ip.dict_from_pairs(map_seq(ip, s, lambda x: (x, v)))


def dict_method(ip, o, name):
    if name == "get":
        return B(name, lambda ip, a, k: dict_get_default(ip, o, a[0], a[1] if len(a) > 1 else None))
    if name == "items":
        return B(name, lambda ip, a, k: IterView(ip.dict_items(o)))
    if name == "keys":
        return B(name, lambda ip, a, k: IterView(ip.dict_keys(o)))
    if name == "values":
        return B(name, lambda ip, a, k: IterView(ip.dict_values(o)))
    if name == "copy":
        return B(name, lambda ip, a, k: DictVal(o.map))
    if name == "update":
        def update(ip, a, k):
            if a:
                v = ip.force(a[0])
                m = v.map if isinstance(v, DictVal) else ip.dict_from_pairs(ip.to_seq(v)).map
                ip.set_field(o, "map", ip.map_update(o.map, m))
            for kk, v in k.items():
                ip.dict_set(o, kk, v)
        return B(name, update)
    if name == "setdefault":
        def setdefault(ip, a, k):
            if ip.branch(ip.dict_has(o, a[0])):
                return ip.dict_get(o, a[0])
            ip.dict_set(o, a[0], a[1] if len(a) > 1 else None)
            return ip.dict_get(o, a[0])
        return B(name, setdefault)
    if name == "pop":
        def pop(ip, a, k):
            if ip.branch(ip.dict_has(o, a[0])):
                v = ip.dict_get(o, a[0])
                ip.del_item(o, a[0])
                return v
            if len(a) > 1:
                return a[1]
            raise PyRaise(KeyError)
        return B(name, pop)
    if name == "__getitem__":
        return B(name, lambda ip, a, k: ip.dict_get(o, a[0]))
    if name == "__contains__":
        return B(name, lambda ip, a, k: _cond(ip.dict_has(o, a[0])))
    if name == "__len__":
        return B(name, lambda ip, a, k: ip.length(o))
    if name == "fromkeys":
        return B(name, fromkeys)
    if name in dir(dict):
        raise Unsupported("dict.%s" % name)
    raise PyRaise(AttributeError, (name,))


def IterView(s):
    """A dict view: may be iterated more than once, so it is a list here."""
    return ListVal(s, "tuple")


def set_method(ip, o, name):
    if name == "add":
        def add(ip, a, k):
            ip.set_field(o, "seq", norm_seq(Cat([o.seq, Ex([a[0]])])))
        return B(name, add)
    if name == "difference":
        return B(name, lambda ip, a, k: ip.set_op("-", o, b_set(ip, [a[0]], {})))
    if name == "intersection":
        return B(name, lambda ip, a, k: ip.set_op("&", o, b_set(ip, [a[0]], {})))
    if name == "union":
        return B(name, lambda ip, a, k: ip.set_op("|", o, b_set(ip, [a[0]], {})))
    if name == "issubset":
        def issub(ip, a, k):
            other = ip.to_seq(a[0])
            return mkbool(z3.Not(ip.seq_any(o.seq, lambda x: z3.Not(ip.seq_any(other, lambda y: ip.eq_cond(x, y))))))
        return B(name, issub)
    if name == "issuperset":
        def issup(ip, a, k):
            other = ip.to_seq(a[0])
            return mkbool(z3.Not(ip.seq_any(other, lambda x: z3.Not(ip.seq_any(o.seq, lambda y: ip.eq_cond(x, y))))))
        return B(name, issup)
    if name == "__contains__":
        return B(name, lambda ip, a, k: _cond(ip.contains(o, a[0])))
    if name in dir(set):
        raise Unsupported("set.%s" % name)
    raise PyRaise(AttributeError, (name,))


def array_method(ip, o, name):
    if name == "tolist":
        return B(name, lambda ip, a, k: deep_copy(ip, strip_np(o.lst)))
    if name in o.attrs:
        return o.attrs[name]
    if name == "shape":
        s = ip.to_seq(o.lst)
        n = mkint(seq_len(s))
        x = seq_at(s, z3.IntVal(0)) if isinstance(s, (Ex, Tab)) and not (isinstance(s, Ex) and not s.elems) else None
        if isinstance(x, ListVal):
            return (n, mkint(seq_len(ip.to_seq(x))))
        return (n,)
    if name == "ndim":
        return len(ip.explicit(array_method(ip, o, "shape")))
    if name in ("size", "dtype", "T", "copy", "astype", "item", "ravel", "flatten", "reshape", "sum", "max", "min", "argmax", "mean"):
        raise Unsupported("ndarray.%s" % name)
    if name == "__len__":
        return B(name, lambda ip, a, k: ip.length(o.lst))
    raise PyRaise(AttributeError, (name,))


def strip_np(v):
    if isinstance(v, NpS):
        return v.v
    return v


def deep_copy(ip, v):
    v = strip_np(v)
    if isinstance(v, ListVal):
        s = v.seq
        if isinstance(s, Ex):
            s = Ex([deep_copy(ip, x) for x in s.elems])
        elif isinstance(s, Tab):
            s = Tab(s.n, s.i, deep_copy(ip, s.body))
        return ListVal(s, v.kind, v.cls, dict(v.attrs))
    if isinstance(v, DictVal):
        m = v.map
        if isinstance(m, CMap):
            return DictVal(CMap({k: deep_copy(ip, x) for k, x in m.d.items()}))
        return DictVal(SMap(m.k, m.has, deep_copy(ip, m.val), m.bound))
    if isinstance(v, tuple):
        return tuple(deep_copy(ip, x) for x in v)
    if isinstance(v, ObjVal) and isinstance(v.cls, ClassVal):
        return ObjVal(v.cls, {k: deep_copy(ip, x) for k, x in v.attrs.items()}, v.stub)
    return v


def shallow_copy(ip, v):
    v = ip.force(v)
    if isinstance(v, ListVal):
        return ListVal(ip.read_seq(v), v.kind, v.cls, dict(v.attrs))
    if isinstance(v, DictVal):
        return DictVal(v.map)
    if isinstance(v, ObjVal):
        return ObjVal(v.cls, dict(v.attrs), v.stub)
    return v


# ------------------------------------------------------------------ strings
def opq_list(ip, e, tag="str"):
    """A list of strings known by an opaque term."""
    n = UF("seq_len", Obj, INT)(e)
    logic.AXIOMS.setdefault("seq_len", [lambda o: UF("seq_len", Obj, INT)(o) >= 0])
    at = UF("seq_at", Obj, INT, Obj)
    i = ip.fresh()
    return ListVal(Tab(n, i, SObj(at(e, i), tag)))


def str_uf(ip, o, name, args, rtag="str"):
    zs = []
    for a in args:
        a = ip.force(a)
        if isinstance(a, (SInt, SBool)) or isinstance(a, (ListVal, tuple, DictVal)):
            zs.append(zobj(a))
        else:
            zs.append(zobj(a))
    f = UF("str_%s_%d" % (name, len(args)), *([Obj] * (len(args) + 1)), Obj)
    return SObj(f(zobj(o), *zs), rtag)


def int_part(p):
    """n when the string piece is str(n)."""
    if z3.is_app(p) and p.decl().name() == "str_of_int":
        return p.arg(0)
    return None


def plain_pieces(ip, o):
    """The pieces of a formatted string whose other pieces are all decimal digits, else None."""
    ps = o.parts if isinstance(o, SStr) else (o.e,) if isinstance(o, SObj) else None
    if ps is None:
        return None
    for p in ps:
        if not isinstance(p, str):
            n = int_part(p)
            if n is None or not ip.entails(n >= 0):
                return None
    return ps


def from_pieces(ps):
    s = SStr(ps)
    if not s.parts:
        return ""
    if len(s.parts) == 1:
        return s.parts[0] if isinstance(s.parts[0], str) else SObj(s.parts[0], "str")
    return s


def formatted(ip, o, name, args, kw):
    """split, replace, strip, startswith... of a formatted string."""
    ps = plain_pieces(ip, o)
    if ps is None or not all(isinstance(a, (str, int)) for a in args) or kw:
        return None
    if args and isinstance(args[0], str) and any(c.isdigit() for c in args[0]):
        return None
    if name in ("split", "rsplit", "partition", "rpartition") and args and args[0]:
        pieces = [[]]
        for p in ps:
            if isinstance(p, str):
                q = p.split(args[0])
                pieces[-1].append(q[0])
                pieces.extend([x] for x in q[1:])
            else:
                pieces[-1].append(p)
        if len(args) > 1 or name in ("partition", "rpartition"):
            most = args[1] if len(args) > 1 else 1
            if most >= 0 and len(pieces) > most + 1:
                j = []
                group = pieces[most:] if name in ("split", "partition") else pieces[:len(pieces) - most]
                for x in group:
                    j += ([args[0]] if j or x is not group[0] else []) + x
                pieces = pieces[:most] + [j] if name in ("split", "partition") else [j] + pieces[len(pieces) - most:]
        xs = [from_pieces(x) for x in pieces]
        if name == "partition":
            return (xs[0], args[0], xs[1]) if len(xs) > 1 else (xs[0], "", "")
        if name == "rpartition":
            return (xs[0], args[0], xs[1]) if len(xs) > 1 else ("", "", xs[0])
        return ListVal(Ex(xs))
    if name == "replace" and len(args) == 2 and args[0] and isinstance(args[1], str):
        return from_pieces([p.replace(*args) if isinstance(p, str) else p for p in ps])
    if name in ("strip", "lstrip", "rstrip") and args and isinstance(args[0], str):
        ps = list(ps)
        if name != "rstrip" and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip(args[0])
        if name != "lstrip" and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip(args[0])
        return from_pieces(ps)
    if name == "startswith" and isinstance(args[0], str) and len(args) == 1:
        if not isinstance(ps[0], str):
            return False if args[0] else True
        if len(ps[0]) >= len(args[0]) or not args[0].startswith(ps[0]):
            return ps[0].startswith(args[0])
        return False
    if name == "isdigit":
        return all(not isinstance(p, str) or p.isdigit() for p in ps)
    return None


def str_method(ip, o, name):
    def fn(ip, args, kw):
        args = [ip.force(a) for a in args]
        if not native(o) and name in dir(str):
            r = formatted(ip, o, name, args, kw)
            if r is not None:
                return r
        if native(o) and all(native(a) for a in args) and all(native(a) for a in kw.values()) and name != "join":
            try:
                r = getattr(o, name)(*args, **kw)
            except Exception as ex:
                raise PyRaise(type(ex), ex.args)
            return ListVal(Ex(r)) if isinstance(r, list) else r
        if name == "join":
            s = norm_seq(ip.to_seq(args[0]))
            few = const(simp(s.n)) if isinstance(s, Tab) else None
            if few is not None and few <= 8:
                s = Ex([seq_at(s, z3.IntVal(j)) for j in range(few)])
            if isinstance(s, Ex):
                parts = []
                for j, x in enumerate(s.elems):
                    x = ip.force(x)
                    if not isinstance(x, (str, SStr)) and not (isinstance(x, SObj) and x.tag == "str"):
                        raise PyRaise(TypeError, ("join",))
                    if j:
                        parts.append(o)
                    parts.append(x)
                return ip.concat_str(parts)
            return SObj(UF("str_join", Obj, Obj, Obj)(zobj(o), reify_seq(s, "list")), "str")
        if name == "format":
            if native(o):
                import re

                pieces = re.split(r"\{([^{}]*)\}", o)
                out, ai = [pieces[0]], 0
                for k in range(1, len(pieces), 2):
                    f = pieces[k].split(":")[0]
                    if f == "":
                        a = args[ai]
                        ai += 1
                    elif f.isdigit():
                        a = args[int(f)]
                    else:
                        a = kw[f]
                    out.append(ip.to_str(a) if ":" not in pieces[k] else SObj(ip.fresh(Obj, "msg"), "str"))
                    out.append(pieces[k + 1])
                return ip.concat_str(out)
            raise Unsupported("format")
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "casefold", "replace"):
            return str_uf(ip, o, name, args)
        if name in ("split", "splitlines", "rsplit"):
            return opq_list(ip, str_uf(ip, o, name, args).e)
        if name == "encode":
            enc = args[0] if args else kw.get("encoding", "utf-8")
            err = args[1] if len(args) > 1 else kw.get("errors", "strict")
            enc = enc.lower() if isinstance(enc, str) else enc
            ok = UF("encodable", Obj, Obj, BOOL)(zobj(o), zobj(enc))
            if err == "strict" and not (isinstance(enc, str) and enc in ("utf-8", "utf8")):
                if not ip.branch(ok):
                    raise PyRaise(UnicodeEncodeError)
            if err == "strict" and isinstance(enc, str) and enc in ("utf-8", "utf8"):
                return SObj(UF("utf8", Obj, Obj)(zobj(o)), "bytes")
            return SObj(UF("encode", Obj, Obj, Obj, Obj)(zobj(o), zobj(enc), zobj(err)), "bytes")
        if name in ("find", "index", "rfind", "count"):
            t = UF("str_" + name, Obj, Obj, INT)(zobj(o), zobj(args[0]))
            has = UF("str_contains", Obj, Obj, BOOL)(zobj(o), zobj(args[0]))
            if name in ("find", "rfind"):
                logic.AXIOMS["str_" + name] = [lambda a, b: z3.And(UF("str_" + name, Obj, Obj, INT)(a, b) >= -1, (UF("str_" + name, Obj, Obj, INT)(a, b) >= 0) == UF("str_contains", Obj, Obj, BOOL)(a, b))]
            elif name == "index":
                if not ip.branch(has):
                    raise PyRaise(ValueError)
            else:
                logic.AXIOMS["str_count"] = [lambda a, b: z3.And(UF("str_count", Obj, Obj, INT)(a, b) >= 0, (UF("str_count", Obj, Obj, INT)(a, b) > 0) == UF("str_contains", Obj, Obj, BOOL)(a, b))]
            return SInt(t)
        if name in ("startswith", "endswith", "isdigit", "isspace", "isalpha", "isalnum"):
            f = UF("str_" + name, *([Obj] * (1 + len(args))), BOOL)
            return SBool(f(zobj(o), *[zobj(a) for a in args]))
        raise Unsupported("str.%s" % name)

    if name not in dir(str):
        raise PyRaise(AttributeError, (name,))
    return B("str." + name, fn)


# ------------------------------------------------------------------ modules
def modules(ip):
    ms = {}

    def mod(name, ns):
        ms[name] = ModuleVal(name, {k: (Builtin(k, v) if callable(v) and not isinstance(v, (type, V)) else v) for k, v in ns.items()})
        return ms[name]

    mod("math", {
        "exp": m_exp, "log": m_log, "sqrt": m_sqrt, "isnan": kind_test(NAN), "isinf": kind_test(PINF, NINF),
        "isfinite": kind_test(FIN), "pi": _math.pi, "e": _math.e, "inf": _math.inf, "nan": _math.nan, "fabs": lambda ip, a, k: b_float(ip, [b_abs(ip, a, k)], {}),
        "floor": lambda ip, a, k: (mkint(z3.ToInt(zreal(a[0]))) if not native(a[0]) else _math.floor(a[0])),
        "ceil": lambda ip, a, k: (mkint(-z3.ToInt(-zreal(a[0]))) if not native(a[0]) else _math.ceil(a[0])),
        "fsum": lambda ip, a, k: b_float(ip, [b_sum(ip, a, k)], {}),
        "pow": lambda ip, a, k: ip.binop("**", b_float(ip, [a[0]], {}), a[1]),
    })

    def op(o):
        return lambda ip, a, k: ip.binop(o, a[0], a[1])

    import ast

    def cmp_(t):
        return lambda ip, a, k: ip.compare(t(), a[0], a[1])

    def attrgetter(ip, a, k):
        def get(ip2, b, k2):
            v = b[0]
            for nm in a[0].split("."):
                v = ip2.getattr(v, nm)
            return v
        return Builtin("attrgetter", get)

    def itemgetter(ip, a, k):
        if len(a) == 1:
            return Builtin("itemgetter", lambda ip2, b, k2: ip2.get_item(b[0], a[0]))
        return Builtin("itemgetter", lambda ip2, b, k2: tuple(ip2.get_item(b[0], x) for x in a))

    mod("operator", {"add": op("+"), "sub": op("-"), "mul": op("*"), "truediv": op("/"), "mod": op("%"), "floordiv": op("//"), "pow": op("**"),
                     "xor": op("^"), "and_": op("&"), "or_": op("|"), "lt": cmp_(ast.Lt), "le": cmp_(ast.LtE), "gt": cmp_(ast.Gt),
                     "ge": cmp_(ast.GtE), "eq": cmp_(ast.Eq), "ne": cmp_(ast.NotEq), "neg": lambda ip, a, k: ip.neg(ip.force(a[0])),
                     "attrgetter": attrgetter, "itemgetter": itemgetter, "abs": b_abs,
                     "getitem": lambda ip, a, k: ip.get_item(a[0], a[1]),
                     "contains": lambda ip, a, k: _cond(ip.contains(a[0], a[1]))})

    def reduce(ip, a, k):
        return reduce_seq(ip, a[0], ip.to_seq(a[1]), a[2:] and a[2], len(a) > 2)

    def update_wrapper(ip, a, k):
        w, f = a[0], a[1]
        nm = ip.getattr(f, "__name__")
        if isinstance(w, FuncVal):
            ip.set_key(w.attrs, "__name__", nm, w)
        elif isinstance(w, ObjVal):
            ip.set_key(w.attrs, "__name__", nm, w)
        return w

    mod("functools", {"partial": lambda ip, a, k: Partial(a[0], list(a[1:]), dict(k)), "reduce": reduce, "update_wrapper": update_wrapper,
                      "wraps": lambda ip, a, k: Builtin("wraps", lambda ip2, b, k2: b[0]),
                      "lru_cache": lambda ip, a, k: a[0] if a and isinstance(a[0], FuncVal) else Builtin("lru", lambda ip2, b, k2: b[0])})

    def islice(ip, a, k):
        v = ListVal(ip.to_seq(a[0]), "tuple")
        sl = slice(None, a[1], None) if len(a) == 2 else slice(a[1], a[2], a[3] if len(a) > 3 else None)
        return IterVal(ip.to_seq(ip.get_slice(v, sl)))

    def chain(ip, a, k):
        return IterVal(norm_seq(Cat([ip.to_seq(x) for x in a] or [Ex([])])))

    def accumulate(ip, a, k):
        raise Unsupported("itertools.accumulate")

    def repeat(ip, a, k):
        if len(a) < 2:
            raise Unsupported("infinite repeat")
        return IterVal(ip.to_seq(ip.repeat(ListVal(Ex([a[0]])), a[1])))

    mod("itertools", {"islice": islice, "chain": chain, "accumulate": accumulate, "repeat": repeat})
    mod("copy", {"copy": lambda ip, a, k: shallow_copy(ip, a[0]), "deepcopy": lambda ip, a, k: deep_copy(ip, a[0])})
    def warn(ip, a, k):
        if ip.recorders and ip.recorders[-1][0] is not None and not ip.recorders[-1][1]:
            category = k.get("category", a[1] if len(a) > 1 else None)
            if category not in (None, UserWarning):
                raise Unsupported("warning of another category")
            ip.list_append(ip.recorders[-1][0], 1)

    def simplefilter(ip, a, k):
        if len(a) > 1 or k:
            raise Unsupported("filter of some warnings")
        if ip.recorders:
            ip.recorders[-1] = (ip.recorders[-1][0], a[0] == "ignore")

    def filterwarnings(ip, a, k):
        if k.get("category") is DeprecationWarning and a == ["ignore"] and len(k) == 1:
            return  # only warnings of the user category are recorded
        if ip.recorders and ip.recorders[-1][0] is not None:
            raise Unsupported("filter of some warnings")

    mod("warnings", {"warn": warn, "simplefilter": simplefilter, "filterwarnings": filterwarnings,
                     "catch_warnings": lambda ip, a, k: ObjVal(LibClass("catch_warnings"), {"record": bool(k.get("record"))})})
    mod("numbers", {"Integral": AbcVal("Integral", lambda ip, v: is_instance(ip, v, int)),
                    "Real": AbcVal("Real", lambda ip, v: is_instance(ip, v, (int, float))),
                    "Number": AbcVal("Number", lambda ip, v: is_instance(ip, v, (int, float)))})
    mod("collections", {"defaultdict": lambda ip, a, k: _unsup("defaultdict"), "OrderedDict": b_dict,
                        "Counter": lambda ip, a, k: _unsup("Counter")})
    mod("collections.abc", {"Mapping": AbcVal("Mapping", lambda ip, v: is_instance(ip, v, dict)),
                            "Iterable": AbcVal("Iterable", lambda ip, v: is_instance(ip, v, (list, dict, tuple, str)))})
    mod("abc", {"abstractmethod": lambda ip, a, k: a[0]})

    def normalize(ip, a, k):
        return SObj(UF("uni_normalize", Obj, Obj, Obj)(zobj(a[0]), zobj(a[1])), "str")

    mod("unicodedata", {"normalize": normalize, "combining": lambda ip, a, k: SInt(UF("uni_combining", Obj, INT)(zobj(a[0])))})

    # re
    def regex(ip, pat):
        o = ObjVal(LibClass("Pattern"))
        e = zobj(pat)

        def m(name, f):
            o.attrs[name] = Builtin("re." + name, f)

        m("findall", lambda ip, a, k: opq_list(ip, UF("re_findall", Obj, Obj, Obj)(e, zobj(a[0]))))
        m("split", lambda ip, a, k: opq_list(ip, UF("re_split", Obj, Obj, Obj)(e, zobj(a[0]))))
        m("sub", lambda ip, a, k: SObj(UF("re_sub", Obj, Obj, Obj, Obj)(e, zobj(a[0]), zobj(a[1])), "str"))
        m("finditer", lambda ip, a, k: _unsup("finditer"))
        return o

    mod("re", {"compile": lambda ip, a, k: regex(ip, a[0]),
               "split": lambda ip, a, k: ip.call(regex(ip, a[0]).attrs["split"], a[1:], {}),
               "findall": lambda ip, a, k: ip.call(regex(ip, a[0]).attrs["findall"], a[1:], {}),
               "sub": lambda ip, a, k: ip.call(regex(ip, a[0]).attrs["sub"], a[1:], {}),
               "UNICODE": 32, "IGNORECASE": 2})

    # struct: only single floats are packed
    def pack(ip, a, k):
        if a[0] not in ("f", "<f", "=f", "!f", ">f"):
            raise Unsupported("struct format %r" % (a[0],))
        x = math_arg(ip, a[1])
        if fkind(x) is None:
            e = simp(zreal(x))
            if ip.branch(z3.Or(e > F32_MAX, e < -F32_MAX)):
                raise PyRaise(OverflowError, ("float too large to pack with f format",))
        return ObjVal(LibClass("packed"), {"fmt": a[0], "x": x})

    def unpack(ip, a, k):
        o = a[1]
        if isinstance(o, ObjVal) and o.attrs.get("fmt") == a[0]:
            x = o.attrs["x"]
            if fkind(x) is not None:
                return (x,)
            if isinstance(x, (int, float)) and float(x) == int(x) and abs(x) < 2 ** 24:
                return (float(x),)
            t = F32(simp(zreal(x)))
            return (SFl(t),)
        raise Unsupported("unpack")

    mod("struct", {"pack": pack, "unpack": unpack})

    def loose(ip, a, k):
        v = a[0]
        if isinstance(v, str):
            import re

            comps = [int(x) if x.isdigit() else x for x in re.findall(r"\d+|[a-z]+", v)]
            return ObjVal(LibClass("LooseVersion"), {"v": tuple(comps)})
        if isinstance(v, SStr):
            # numbers between single dots
            comps = []
            for q, p in enumerate(v.parts):
                if isinstance(p, str):
                    if not re_dotted(p, q == 0, q == len(v.parts) - 1):
                        break
                    comps += [int(x) for x in p.split(".") if x]
                elif p.decl().name() == "str_of_int":
                    if not logic.entails(ip.pc, p.arg(0) >= 0):
                        break
                    comps.append(SInt(p.arg(0)))
                else:
                    break
            else:
                if not any(not isinstance(a, str) and not isinstance(b, str) for a, b in zip(v.parts, v.parts[1:])):
                    return ObjVal(LibClass("LooseVersion"), {"v": tuple(comps)})
        raise Unsupported("LooseVersion of a symbolic string")

    def re_dotted(p, first, last):
        import re

        return re.fullmatch(("" if first else r"\.") + r"(\d+(\.\d+)*)?" + ("" if last else r"\."), p.replace("..", "x")) or p == "." and not first and not last

    mod("distutils.version", {"LooseVersion": loose})
    mod("distutils", {})
    mod("pickle", {"dumps": lambda ip, a, k: _unsup("pickle"), "loads": lambda ip, a, k: _unsup("pickle")})
    mod("time", {"time": lambda ip, a, k: SFl(ip.fresh(REAL, "time"))})

    def jloads(ip, a, k):
        o = ip.force(a[0])
        if isinstance(o, ObjVal) and "json" in o.attrs:
            return o.attrs["json"]
        raise Unsupported("json.loads")

    mod("json", {"loads": jloads, "dumps": lambda ip, a, k: _unsup("json.dumps")})
    mod("os", {"environ": DictVal(CMap({}))})
    mod("sys", {"maxsize": 2 ** 63 - 1})
    mod("typing", {n: object for n in ("List", "Dict", "Optional", "Any", "Tuple", "Union")})
    return ms
