"""Operations on values and sequences that need no control flow: substitution, merging,
reification, equality goals."""
import z3

from . import logic
from .values import *
from .values import FIN


# ---------------------------------------------------------------- substitution
def sub(v, pairs):
    """v with z3 constants replaced (pairs of constants and terms)."""
    if v is None or isinstance(v, (int, float, str, bytes, bool)):
        return v
    if isinstance(v, SInt):
        return mkint(z3.substitute(v.e, *pairs))
    if isinstance(v, SBool):
        return mkbool(z3.substitute(v.e, *pairs))
    if isinstance(v, SFl):
        return SFl(z3.substitute(v.e, *pairs), None if v.k is None else simp(z3.substitute(v.k, *pairs)))
    if isinstance(v, SObj):
        return SObj(z3.substitute(v.e, *pairs), v.tag)
    if isinstance(v, SStr):
        return SStr([p if isinstance(p, str) else z3.substitute(p, *pairs) for p in v.parts])
    if isinstance(v, Choice):
        c = simp(z3.substitute(v.cond, *pairs))
        if z3.is_true(c):
            return sub(v.a, pairs)
        if z3.is_false(c):
            return sub(v.b, pairs)
        return Choice(c, sub(v.a, pairs), sub(v.b, pairs))
    if isinstance(v, tuple):
        return tuple(sub(x, pairs) for x in v)
    if isinstance(v, NpS):
        return NpS(sub(v.v, pairs), v.np)
    if isinstance(v, NdArr):
        return NdArr(sub(v.lst, pairs), {k: sub(x, pairs) for k, x in v.attrs.items()})
    if isinstance(v, RangeVal):
        return RangeVal(sub(v.start, pairs), sub(v.stop, pairs), sub(v.step, pairs))
    if isinstance(v, ListVal):
        if not mentions(v, pairs):
            return v
        return sub_origin(v, ListVal(sub_seq(v.seq, pairs), v.kind, v.cls, {k: sub(x, pairs) for k, x in v.attrs.items()}, v.ident), pairs)
    if isinstance(v, IterVal):
        r = IterVal(sub_seq(v.seq, pairs))
        r.used = v.used
        return r
    if isinstance(v, DictVal):
        if not mentions(v, pairs):
            return v
        return sub_origin(v, DictVal(sub_map(v.map, pairs), v.ident), pairs)
    if isinstance(v, SetVal):
        return SetVal(sub_seq(v.seq, pairs))
    if isinstance(v, ObjVal):
        if not mentions(v, pairs):
            return v
        r = ObjVal(v.cls, {k: sub(x, pairs) for k, x in v.attrs.items()},
                   v.stub.sub(pairs) if v.stub is not None and hasattr(v.stub, "sub") else v.stub)
        r.ident = v.ident
        return sub_origin(v, r, pairs)
    if hasattr(v, "sub"):
        return v.sub(pairs)
    return v


def sub_origin(v, r, pairs):
    """An element of a list stays an element (of the same list, elsewhere)."""
    if v.origin is not None:
        p, kind, ix = v.origin
        r.origin = (p, kind, simp(z3.substitute(ix, *pairs)))
        logic.keep(r.origin[2])
        r.serial = v.serial
    return r


def sub_seq(s, pairs):
    if isinstance(s, Ex):
        return Ex([sub(x, pairs) for x in s.elems])
    if isinstance(s, Tab):
        return Tab(simp(z3.substitute(s.n, *pairs)), s.i, sub(s.body, pairs), s.shared)
    if isinstance(s, Comp):
        return Comp([(g[0], g[1], z3.substitute(g[2], *pairs)) for g in s.gens],
                    z3.substitute(s.cond, *pairs), sub(s.body, pairs))
    if isinstance(s, Cat):
        return Cat([sub_seq(p, pairs) for p in s.parts])
    return s


def sub_map(m, pairs):
    if isinstance(m, CMap):
        return CMap({k: sub(x, pairs) for k, x in m.d.items()})
    return SMap(m.k, z3.substitute(m.has, *pairs), sub(m.val, pairs),
                None if m.bound is None else simp(z3.substitute(m.bound, *pairs)))


def terms(v, acc=None):
    """All z3 terms inside a value."""
    acc = [] if acc is None else acc
    if v is None or isinstance(v, (int, float, str, bytes, bool)):
        return acc
    if isinstance(v, (SInt, SBool, SObj)):
        acc.append(v.e)
    elif isinstance(v, SFl):
        acc.append(v.e)
        if v.k is not None:
            acc.append(v.k)
    elif isinstance(v, SStr):
        acc.extend(p for p in v.parts if not isinstance(p, str))
    elif isinstance(v, Choice):
        acc.append(v.cond)
        terms(v.a, acc)
        terms(v.b, acc)
    elif isinstance(v, tuple):
        for x in v:
            terms(x, acc)
    elif isinstance(v, NpS):
        terms(v.v, acc)
    elif isinstance(v, NdArr):
        terms(v.lst, acc)
        for x in v.attrs.values():
            terms(x, acc)
    elif isinstance(v, RangeVal):
        for x in (v.start, v.stop, v.step):
            terms(x, acc)
    elif isinstance(v, (ListVal, IterVal, SetVal)):
        seq_terms(v.seq, acc)
        for x in getattr(v, "attrs", {}).values():
            terms(x, acc)
    elif isinstance(v, DictVal):
        m = v.map
        if isinstance(m, CMap):
            for x in m.d.values():
                terms(x, acc)
        else:
            acc.append(m.has)
            if m.bound is not None:
                acc.append(m.bound)
            terms(m.val, acc)
    elif isinstance(v, ObjVal):
        for x in v.attrs.values():
            terms(x, acc)
        if v.stub is not None and hasattr(v.stub, "terms"):
            v.stub.terms(acc)
    elif hasattr(v, "terms"):
        v.terms(acc)
    return acc


def seq_terms(s, acc):
    if isinstance(s, Ex):
        for x in s.elems:
            terms(x, acc)
    elif isinstance(s, Tab):
        acc.append(s.n)
        terms(s.body, acc)
    elif isinstance(s, Comp):
        acc.extend(g[2] for g in s.gens)
        acc.append(s.cond)
        terms(s.body, acc)
    elif isinstance(s, Cat):
        for p in s.parts:
            seq_terms(p, acc)
    return acc


def mentions(v, pairs):
    names = {p[0].decl().name() for p in pairs}
    if getattr(v, "origin", None) is not None and any(
            c.decl().name() in names for c in logic.consts_of([v.origin[2]])):
        return True
    return any(c.decl().name() in names for c in logic.consts_of(terms(v)))


# ---------------------------------------------------------------- reification
_fmt = {}


def zobj(v):
    """The Obj term of an opaque or literal value (strings, labels, None)."""
    if isinstance(v, SObj):
        return v.e
    if isinstance(v, (str, bytes)) or v is None or isinstance(v, (int, float)):
        return lit(v)
    if isinstance(v, SStr):
        if not v.parts:
            return lit("")
        if len(v.parts) == 1:
            p = v.parts[0]
            return lit(p) if isinstance(p, str) else p
        name = "fmt!" + "".join(p if isinstance(p, str) else "\x00" for p in v.parts)
        args = [p for p in v.parts if not isinstance(p, str)]
        f = z3.Function(name, *[Obj] * len(args), Obj)
        return f(*args)
    if isinstance(v, SInt):
        return z3.Function("obj_of_int", INT, Obj)(v.e)
    if isinstance(v, SBool):
        return z3.If(v.e, lit(True), lit(False))
    if isinstance(v, Choice):
        return z3.If(v.cond, zobj(v.a), zobj(v.b))
    if isinstance(v, (ListVal, tuple, DictVal)):
        return reify(v)
    if isinstance(v, SFl):
        return z3.Function("obj_of_real", INT, REAL, Obj)(zkind(v), v.e)
    raise Unsupported("no opaque term for %r" % (v,))


def leaves(v):
    """Flat list of z3 terms of a value of fixed shape, plus a shape tag."""
    if isinstance(v, bool) or isinstance(v, SBool):
        return [zbool(v)], "b"
    if isinstance(v, (int, SInt)):
        return [z3.ToReal(zint(v))], "f"
    if isinstance(v, (float, SFl)):
        k = fkind(v)
        if k is None:
            return [zreal(v)], "f"
        return [zkind(v), zreal(v)], "x"
    if isinstance(v, (str, bytes, SStr, SObj)) or v is None:
        return [zobj(v)], "o"
    if isinstance(v, (tuple,)):
        ls, tags = [], []
        for x in v:
            a, t = leaves(x)
            ls += a
            tags.append(t)
        return ls, "(%s)" % ",".join(tags)
    if isinstance(v, NpS):
        return leaves(v.v)
    if isinstance(v, (ListVal, DictVal, IterVal)):
        return [reify(v)], "o"
    if isinstance(v, Choice):
        a, ta = leaves(v.a)
        b, tb = leaves(v.b)
        if ta == tb:
            return [z3.If(v.cond, x, y) for x, y in zip(a, b)], ta
        return [z3.If(v.cond, zobj(v.a), zobj(v.b))], "o"
    if isinstance(v, ObjVal):
        ls, tags = [], []
        for k in sorted(v.attrs):
            a, t = leaves(v.attrs[k])
            ls += a
            tags.append(k + ":" + t)
        return ls, "{%s}" % ",".join(tags)
    raise Unsupported("cannot reify %r" % (v,))


def reify(v):
    """An Obj term standing for the contents of a list or dict."""
    if isinstance(v, tuple):
        return reify_seq(Ex(list(v)), "tuple")
    if isinstance(v, (ListVal, IterVal)):
        tag = "list"
        if isinstance(v, ListVal) and v.cls is not None:
            tag = v.cls.name
        base = reify_seq(v.seq, "list")
        if tag != "list" and isinstance(v.attrs.get("size"), (int, SInt)):
            return z3.Function("sized!" + tag, Obj, INT, Obj)(base, zint(v.attrs["size"]))
        return base
    if isinstance(v, DictVal):
        m = v.map
        if isinstance(m, CMap):
            raise Unsupported("reify concrete dict")
        val, tag = leaves(m.val)
        return logic.mk_agg("map", Obj, [m.k], [m.has] + [z3.If(m.has, x, dflt(x.sort())) for x in val], aux=tag)
    raise Unsupported("cannot reify %r" % (v,))


def dflt(sort):
    if sort == REAL:
        return z3.RealVal(0)
    if sort == INT:
        return z3.IntVal(0)
    if sort == BOOL:
        return z3.BoolVal(False)
    return lit(None)


def reify_seq(s, tag):
    if isinstance(s, Ex):
        # as a table over its index, so that it can meet a symbolic list
        i = logic.fresh_ix()
        if not s.elems:
            return logic.mk_agg("row", Obj, [i], [z3.BoolVal(True)], n=z3.IntVal(0), aux="empty")
        ls, t0 = leaves(s.elems[0])
        for p, x in list(enumerate(s.elems))[1:]:
            l2, t = leaves(x)
            if t != t0:
                raise Unsupported("reify mixed list")
            ls = [z3.If(i == p, b, a) for a, b in zip(ls, l2)]
        return logic.mk_agg("row", Obj, [i], ls, n=z3.IntVal(len(s.elems)), aux=t0)
    if isinstance(s, Tab):
        ls, t = leaves(s.body)
        return logic.mk_agg("row", Obj, [s.i], ls, n=s.n, aux=t)
    if isinstance(s, Comp):
        ls, t = leaves(s.body)
        c = s.cond
        bvs = [g[1] for g in s.gens]
        doms = [z3.And(g[1] >= 0, g[1] < g[2]) if g[0] == "r" else g[2] for g in s.gens]
        c = z3.And(*doms, c)
        return logic.mk_agg("comp", Obj, bvs, [c] + [z3.If(c, x, dflt(x.sort())) for x in ls],
                            aux=t + "".join(g[0] for g in s.gens))
    if isinstance(s, Cat):
        es = [reify_seq(p, tag) for p in s.parts]
        r = es[0]
        for x in es[1:]:
            r = z3.Function("cat", Obj, Obj, Obj)(r, x)
        return r
    raise Unsupported("cannot reify %r" % (s,))


# ---------------------------------------------------------------- merging
def same(a, b):
    """Certainly the same value (syntactically)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if a is None or isinstance(a, (int, str, bytes, bool)):
        return a == b
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (SInt, SBool)):
        return a.e.eq(b.e)
    if isinstance(a, SFl):
        return a.e.eq(b.e) and (a.k is b.k or (a.k is not None and b.k is not None and a.k.eq(b.k)))
    if isinstance(a, SObj):
        return a.e.eq(b.e) and a.tag == b.tag
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, SStr):
        return len(a.parts) == len(b.parts) and all(
            x == y if isinstance(x, str) or isinstance(y, str) else x.eq(y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, ListVal):
        return a.kind == b.kind and a.cls is b.cls and same_seq(a.seq, b.seq) and set(a.attrs) == set(b.attrs) and all(
            same(a.attrs[k], b.attrs[k]) for k in a.attrs)
    if isinstance(a, DictVal):
        return a.map is b.map
    if isinstance(a, ObjVal):
        return a.cls is b.cls and a.stub is b.stub and set(a.attrs) == set(b.attrs) and all(
            same(a.attrs[k], b.attrs[k]) for k in a.attrs)
    return False


def same_seq(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Ex):
        return len(a.elems) == len(b.elems) and all(same(x, y) for x, y in zip(a.elems, b.elems))
    if isinstance(a, Tab):
        return a.n.eq(b.n) and same(a.body, sub(b.body, [(b.i, a.i)]))
    return False


def merge2(c, a, b):
    """The value that is a where c holds and b elsewhere."""
    if same(a, b):
        return a
    ta, tb = type(a), type(b)
    num = (int, float, SInt, SFl)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(c, zbool(a), zbool(b)))
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            return mkint(z3.If(c, zint(a), zint(b)))
        if fkind(a) is None and fkind(b) is None:
            x, y = zreal(a), zreal(b)
            if x.decl().eq(logic.LOG) and y.decl().eq(logic.LOG):
                return SFl(logic.LOG(simp(z3.If(c, x.arg(0), y.arg(0)))))
            return SFl(simp(z3.If(c, x, y)))
        return SFl(simp(z3.If(c, zreal(a), zreal(b))), simp(z3.If(c, zkind(a), zkind(b))))
    strs = (str, SStr)
    if (isinstance(a, strs) or isinstance(a, SObj)) and (isinstance(b, strs) or isinstance(b, SObj)):
        tag = a.tag if isinstance(a, SObj) else b.tag if isinstance(b, SObj) else "str"
        if not (isinstance(a, SObj) and isinstance(b, SObj) and a.tag != b.tag):
            if (isinstance(a, SObj) or isinstance(b, SObj)) and not isinstance(a, SStr) and not isinstance(b, SStr):
                if tag == "str" or (isinstance(a, SObj) and isinstance(b, SObj)):
                    return SObj(z3.If(c, zobj(a), zobj(b)), tag)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge2(c, x, y) for x, y in zip(a, b))
    if isinstance(a, NpS) and isinstance(b, NpS) and a.np == b.np:
        return NpS(merge2(c, a.v, b.v), a.np)
    if isinstance(a, ListVal) and isinstance(b, ListVal) and a.kind == b.kind and a.cls is b.cls:
        s = merge_seq(c, a.seq, b.seq)
        if s is not None and set(a.attrs) == set(b.attrs):
            return ListVal(s, a.kind, a.cls, {k: merge2(c, a.attrs[k], b.attrs[k]) for k in a.attrs})
    if isinstance(a, DictVal) and isinstance(b, DictVal):
        m = merge_map(c, a.map, b.map)
        if m is not None:
            return DictVal(m)
    return Choice(simp(c), a, b)


def merge_seq(c, a, b):
    if isinstance(a, Ex) and isinstance(b, Ex) and len(a.elems) == len(b.elems):
        return Ex([merge2(c, x, y) for x, y in zip(a.elems, b.elems)])
    if isinstance(a, Tab) and isinstance(b, Tab) and a.n.eq(b.n):
        return Tab(a.n, a.i, merge2(c, a.body, sub(b.body, [(b.i, a.i)])))
    return None


def key_sort(m):
    return m.k.sort() if isinstance(m, SMap) else None


def norm_val(has, val):
    """A number kept under a key, 0 where the key is absent."""
    if isinstance(val, bool) or isinstance(val, SBool):
        return val
    if isinstance(val, (int, SInt)):
        return mkint(z3.If(has, zint(val), z3.IntVal(0)))
    if isinstance(val, (float, SFl)):
        if fkind(val) is None:
            return SFl(simp(z3.If(has, zreal(val), z3.RealVal(0))))
        return SFl(simp(z3.If(has, zreal(val), z3.RealVal(0))), simp(z3.If(has, zkind(val), z3.IntVal(FIN))))
    return val


def to_smap(m, sort=None):
    """A symbolic view of a dict with concrete keys."""
    if isinstance(m, SMap):
        return m
    if sort is None:
        sort = INT if all(isinstance(k, int) for k in m.d) and m.d else Obj
    k = logic.fresh_ix(sort, "k")
    has, val = z3.BoolVal(False), 0
    for key, x in m.d.items():
        t = z3.IntVal(key) if sort == INT else lit(key)
        has = z3.Or(has, k == t)
        val = x if val == 0 and not isinstance(val, V) and len(m.d) == 1 else merge2(k == t, x, val)
    has = simp(has)
    return SMap(k, has, norm_val(has, val) if is_num(val) else val)


def merge_map(c, a, b):
    if isinstance(a, CMap) and isinstance(b, CMap):
        if list(a.d) == list(b.d):
            return CMap({k: merge2(c, a.d[k], b.d[k]) for k in a.d})
    sort = key_sort(a) if key_sort(a) is not None else key_sort(b)
    try:
        if sort is None:
            sort = INT if all(isinstance(k, int) for k in list(a.d) + list(b.d)) else Obj
        x, y = to_smap(a, sort), to_smap(b, sort)
    except Exception:
        return None
    if x.k.sort() != y.k.sort():
        return None
    pr = [(y.k, x.k)]
    bound = x.bound if x.bound is not None and y.bound is not None and x.bound.eq(y.bound) else None
    return SMap(x.k, simp(z3.If(c, x.has, z3.substitute(y.has, *pr))), merge2(c, x.val, sub(y.val, pr)), bound)


def merge(gvs):
    """Merges [(guard, value)]; guards partition the current case."""
    r = gvs[-1][1]
    for g, v in reversed(gvs[:-1]):
        r = merge2(g, v, r)
    return r


# ---------------------------------------------------------------- equality goals
class Mismatch(Exception):
    pass


def eq_goals(a, b, hyp, out, where="result"):
    """Appends (hypotheses, goal, description) such that all goals imply a == b."""
    if isinstance(a, NpS):
        a = a.v
    if isinstance(b, NpS):
        b = b.v
    if same(a, b):
        return
    if isinstance(a, Choice):
        eq_goals(a.a, b, hyp + [a.cond], out, where)
        eq_goals(a.b, b, hyp + [z3.Not(a.cond)], out, where)
        return
    if isinstance(b, Choice):
        eq_goals(a, b.a, hyp + [b.cond], out, where)
        eq_goals(a, b.b, hyp + [z3.Not(b.cond)], out, where)
        return
    if is_num(a) and is_num(b):
        ka, kb = fkind(a), fkind(b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            out.append((hyp, zbool(a) == zbool(b), where))
        elif ka is None and kb is None:
            if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
                out.append((hyp, zint(a) == zint(b), where))
            else:
                out.append((hyp, zreal(a) == zreal(b), where))
        else:
            out.append((hyp, zkind(a) == zkind(b), where + " (finite/inf/nan)"))
            out.append((hyp + [zkind(a) == FIN, zkind(b) == FIN], zreal(a) == zreal(b), where))
        return
    opq = (str, bytes, SStr, SObj)
    if (isinstance(a, opq) or a is None) and (isinstance(b, opq) or b is None):
        if isinstance(a, SStr) and isinstance(b, SStr) and [isinstance(p, str) and p for p in a.parts] == [
                isinstance(p, str) and p for p in b.parts]:
            for p, q in zip(a.parts, b.parts):
                if not isinstance(p, str):
                    out.append((hyp, p == q, where))
            return
        out.append((hyp, zobj(a) == zobj(b), where))
        return
    if isinstance(a, tuple) and isinstance(b, ListVal):
        a = ListVal(Ex(list(a)), "tuple")
    if isinstance(b, tuple) and isinstance(a, ListVal):
        b = ListVal(Ex(list(b)), "tuple")
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for p, (x, y) in enumerate(zip(a, b)):
            eq_goals(x, y, hyp, out, "%s[%d]" % (where, p))
        return
    if isinstance(a, NdArr):
        a = a.lst
    if isinstance(b, NdArr):
        b = b.lst
    if isinstance(a, ListVal) and isinstance(b, ListVal):
        if (a.cls.name if a.cls else a.kind) != (b.cls.name if b.cls else b.kind):
            out.append((hyp, z3.BoolVal(False), where + ": %s instead of %s" % (
                a.cls.name if a.cls else a.kind, b.cls.name if b.cls else b.kind)))
            return
        for k in sorted(set(a.attrs) | set(b.attrs)):
            if k == "dtype":
                continue
            eq_goals(a.attrs.get(k), b.attrs.get(k), hyp, out, where + "." + k)
        eq_seq(a.seq, b.seq, hyp, out, where)
        return
    if isinstance(a, DictVal) and isinstance(b, DictVal):
        ma, mb = a.map, b.map
        if isinstance(ma, CMap) and isinstance(mb, CMap):
            if set(ma.d) != set(mb.d):
                out.append((hyp, z3.BoolVal(False), where + ": keys"))
                return
            for k in ma.d:
                eq_goals(ma.d[k], mb.d[k], hyp, out, "%s[%r]" % (where, k))
            return
        sort = key_sort(ma) if key_sort(ma) is not None else key_sort(mb)
        x, y = to_smap(ma, sort), to_smap(mb, sort)
        if x.k.sort() != y.k.sort():
            out.append((hyp, z3.BoolVal(False), where + ": key types"))
            return
        t = logic.fresh_ix(x.k.sort(), "k")
        hx, hy = z3.substitute(x.has, (x.k, t)), z3.substitute(y.has, (y.k, t))
        out.append((hyp, hx == hy, where + ": keys"))
        eq_goals(sub(x.val, [(x.k, t)]), sub(y.val, [(y.k, t)]), hyp + [hx, hy], out, where + "[key]")
        return
    if isinstance(a, ObjVal) and isinstance(b, ObjVal):
        if getattr(a.cls, "name", None) != getattr(b.cls, "name", None):
            out.append((hyp, z3.BoolVal(False), where + ": class"))
            return
        for k in sorted(set(a.attrs) | set(b.attrs)):
            eq_goals(a.attrs.get(k), b.attrs.get(k), hyp, out, where + "." + k)
        return
    if a is b:
        return
    # values of different kinds: equal only where this case is impossible
    out.append((hyp, z3.BoolVal(False), where + ": %s instead of %s" % (kindname(a), kindname(b))))


def kindname(v):
    if isinstance(v, ListVal):
        return v.cls.name if v.cls else v.kind
    return type(v).__name__


def seq_len(s):
    """Length as a z3 Int, or None when it has no closed form."""
    if isinstance(s, Ex):
        return z3.IntVal(len(s.elems))
    if isinstance(s, Tab):
        return s.n
    if isinstance(s, Cat):
        ls = [seq_len(p) for p in s.parts]
        return None if any(x is None for x in ls) else simp(z3.Sum(ls))
    if isinstance(s, Comp):
        if len(s.gens) == 1 and s.gens[0][0] == "r":
            _, i, n = s.gens[0]
            return logic.mk_sum(n, i, z3.If(s.cond, z3.IntVal(1), z3.IntVal(0)))
        t = None
        body = z3.If(s.cond, z3.IntVal(1), z3.IntVal(0))
        for g in reversed(s.gens):
            if g[0] == "r":
                body = logic.mk_sum(g[2], g[1], body)
            else:
                body = logic.mk_ksum(g[1], g[2], body)
        return body
    return None


def seq_at(s, t):
    """Element at position t (a z3 Int known to be in range), or None."""
    c = const(simp(t)) if not isinstance(t, int) else t
    if isinstance(s, Ex):
        if c is not None:
            return s.elems[c]
        if not s.elems:
            return None
        r = s.elems[-1]
        for p in range(len(s.elems) - 2, -1, -1):
            r = merge2(t == p, s.elems[p], r)
        return r
    if isinstance(t, int):
        t = z3.IntVal(t)
    if isinstance(s, Tab):
        if s.shared:
            return s.body
        return sub(s.body, [(s.i, t)])
    if isinstance(s, Cat):
        off = z3.IntVal(0)
        opts = []
        for p in s.parts:
            n = seq_len(p)
            if n is None:
                return None
            rel = simp(t - off)
            inside = simp(rel < n)
            if z3.is_true(inside):
                opts.append((inside, seq_at(p, rel)))
                break
            x = None
            if not (const(simp(n)) == 0 or z3.is_false(inside)):
                cr = const(rel)
                if isinstance(p, Ex) and cr is not None and not 0 <= cr < len(p.elems):
                    x = None
                else:
                    x = seq_at(p, rel)
            if x is not None:
                opts.append((inside, x))
            off = simp(off + n)
        if not opts:
            return None
        return merge(opts)
    if isinstance(s, Comp):
        if len(s.gens) == 1 and s.gens[0][0] == "r":
            _, i, n = s.gens[0]
            if const(t) == 0:
                pos = logic.mk_where("first", n, i, s.cond)
            elif same_term(t, seq_len(s) - 1):
                pos = logic.mk_where("last", n, i, s.cond)
            else:
                pos = logic.mk_agg("nth", INT, [i], [s.cond], n=n, extra=[t])
            return sub(s.body, [(i, pos)])
        if len(s.gens) == 2 and all(g[0] == "r" for g in s.gens) and z3.is_true(s.cond):
            # blocks one after the other: the block whose span covers the position
            (_, i, n), (_, j, m) = s.gens
            q = simp(t - logic.mk_sum(i, i, m))
            blk = logic.mk_where("last", n, i, z3.And(q >= 0, q < m))
            return sub(s.body, [(j, simp(z3.substitute(q, (i, blk)))), (i, blk)])
    return None


def same_term(a, b):
    return const(simp(a - b)) == 0


def norm_seq(s):
    """Drops empty parts and flattens."""
    if isinstance(s, Cat):
        ps = []
        for p in s.parts:
            p = norm_seq(p)
            if isinstance(p, Ex) and not p.elems:
                continue
            if isinstance(p, Cat):
                ps.extend(p.parts)
            elif isinstance(p, Ex) and ps and isinstance(ps[-1], Ex):
                ps[-1] = Ex(ps[-1].elems + p.elems)
            else:
                ps.append(p)
        if not ps:
            return Ex([])
        if len(ps) == 1:
            return ps[0]
        return Cat(ps)
    if isinstance(s, Tab) and const(simp(s.n)) == 0:
        return Ex([])
    if isinstance(s, Comp) and len(s.gens) == 1 and s.gens[0][0] == "r" and z3.is_true(simp(s.cond)):
        return Tab(s.gens[0][2], s.gens[0][1], s.body)
    return s


def as_filter(s):
    """A list indexed by the positions of a filter, as that filter: with nth(k) the k-th
    index satisfying c, [f(nth(k)) for k below the number of such indices] is
    [f(j) for j in range(n) if c(j)]."""
    if not isinstance(s, Tab):
        return s
    ind = logic.indicator(simp(s.n))
    if ind is None or ind[0] is None:
        return s
    n, bv, c = ind
    nth = logic.mk_agg("nth", INT, [bv], [c], n=n, extra=[s.i])
    body = sub(s.body, [(nth, bv)])
    if any(logic.has_const([t], s.i) for t in terms(body)):
        return s
    return Comp([("r", bv, n)], c, body)


def eq_seq(a, b, hyp, out, where):
    a, b = as_filter(norm_seq(a)), as_filter(norm_seq(b))
    if isinstance(a, Ex) and isinstance(b, Ex):
        if len(a.elems) != len(b.elems):
            out.append((hyp, z3.BoolVal(False), where + ": length"))
            return
        for p, (x, y) in enumerate(zip(a.elems, b.elems)):
            eq_goals(x, y, hyp, out, "%s[%d]" % (where, p))
        return
    if isinstance(a, Comp) and isinstance(b, Comp) and [g[0] for g in a.gens] == [g[0] for g in b.gens]:
        # same generators, filter and body, generator by generator
        if all(g[1].sort() == h[1].sort() for g, h in zip(a.gens, b.gens)):
            pa, pb, h = [], [], list(hyp)
            for g, k in zip(a.gens, b.gens):
                t = logic.fresh_ix(g[1].sort(), "c")
                ga = z3.substitute(g[2], *pa) if pa else g[2]
                gb = z3.substitute(k[2], *pb) if pb else k[2]
                out.append((list(h), ga == gb if g[0] == "r" else z3.substitute(ga, (g[1], t)) == z3.substitute(gb, (k[1], t)),
                            where + ": range"))
                pa.append((g[1], t))
                pb.append((k[1], t))
                h.append(z3.And(t >= 0, t < ga) if g[0] == "r" else z3.substitute(ga, (g[1], t)))
            ca, cb = z3.substitute(a.cond, *pa), z3.substitute(b.cond, *pb)
            out.append((h, ca == cb, where + ": filter"))
            eq_goals(sub(a.body, pa), sub(b.body, pb), h + [ca], out, where + "[i]")
            return
    if isinstance(a, Cat) and isinstance(b, Cat) and len(a.parts) == len(b.parts):
        la, lb = [seq_len(p) for p in a.parts], [seq_len(p) for p in b.parts]
        for p, (x, y) in enumerate(zip(a.parts, b.parts)):
            eq_seq(x, y, hyp, out, "%s<part %d>" % (where, p))
        return
    na, nb = seq_len(a), seq_len(b)
    if na is None or nb is None:
        raise Unsupported("cannot compare sequences %r and %r" % (a, b))
    out.append((hyp, logic.count_eq(na, nb), where + ": length"))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ex):
            for p, el in enumerate(x.elems):
                o = seq_at(y, z3.IntVal(p))
                if o is None:
                    raise Unsupported("cannot index %r" % (y,))
                h = hyp + [na == nb]
                if x is a:
                    eq_goals(el, o, h, out, "%s[%d]" % (where, p))
                else:
                    eq_goals(o, el, h, out, "%s[%d]" % (where, p))
            return
    t = logic.fresh_ix(INT, "e")
    h = hyp + [t >= 0, t < na, t < nb]
    x, y = seq_at(a, t), seq_at(b, t)
    if x is None or y is None:
        raise Unsupported("cannot compare sequences %r and %r" % (a, b))
    eq_goals(x, y, h, out, where + "[i]")
