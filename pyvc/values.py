"""Symbolic values of the pyvc verifier.

Concrete Python values (int, float, str, bool, None, bytes, tuple) stand for themselves;
the classes here are the symbolic and the mutable ones."""
import math
from fractions import Fraction

import z3

Obj = z3.DeclareSort("Obj")
INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
FIN, PINF, NINF, NAN = 0, 1, 2, 3


class Unsupported(Exception):
    """The code leaves the subset the verifier understands (never a verdict)."""


class V:
    __slots__ = ()


class SInt(V):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SInt(%s)" % self.e


class SBool(V):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SBool(%s)" % self.e


class SFl(V):
    """A float: kind None means finite (value e), else kind is a z3 Int in FIN..NAN."""

    __slots__ = ("e", "k")

    def __init__(self, e, k=None):
        if k is not None and z3.is_int_value(k) and k.as_long() == FIN:
            k = None
        self.e, self.k = e, k

    def __repr__(self):
        return "SFl(%s%s)" % (self.e, "" if self.k is None else ";" + str(self.k))


class SObj(V):
    """An opaque value (label, category, token, document...) known by identity only."""

    __slots__ = ("e", "tag")

    def __init__(self, e, tag="obj"):
        self.e, self.tag = e, tag

    def __repr__(self):
        return "SObj[%s](%s)" % (self.tag, self.e)


class SStr(V):
    """A string built from literal pieces and opaque string pieces (z3 Obj terms)."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return "SStr%r" % (self.parts,)


class Choice(V):
    """Either a (where cond holds) or b; any use forks on cond."""

    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return "Choice(%s,%r,%r)" % (self.cond, self.a, self.b)


class NpS(V):
    """A numpy scalar around a value."""

    __slots__ = ("v", "np")

    def __init__(self, v, np="float64"):
        self.v, self.np = v, np

    def __repr__(self):
        return "NpS(%r)" % (self.v,)


class NdArr(V):
    """A numpy array around a (nested) list value."""

    __slots__ = ("lst", "attrs")

    def __init__(self, lst, attrs=None):
        self.lst = lst
        self.attrs = attrs or {}

    def __repr__(self):
        return "NdArr(%r)" % (self.lst,)


class RangeVal(V):
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step


_serial = [0]


def serial():
    _serial[0] += 1
    return _serial[0]


def last_serial():
    return _serial[0]


class ListVal(V):
    """A list (or instance of a list subclass, or tuple of symbolic length)."""

    __slots__ = ("seq", "kind", "cls", "attrs", "serial", "origin", "ident")

    def __init__(self, seq, kind="list", cls=None, attrs=None, ident=None):
        self.seq, self.kind, self.cls = seq, kind, cls
        self.attrs = attrs if attrs is not None else {}
        self.serial = serial()
        self.origin = None
        self.ident = ident

    def __repr__(self):
        return "%s%s" % (self.cls.name if self.cls else self.kind, self.seq)


class IterVal(V):
    """An iterator (map object, generator...), evaluated eagerly."""

    __slots__ = ("seq", "used", "serial")

    def __init__(self, seq):
        self.seq, self.used, self.serial = seq, False, serial()


class DictVal(V):
    __slots__ = ("map", "serial", "origin", "ident", "cls", "attrs")

    def __init__(self, map_, ident=None):
        self.map = map_
        self.serial = serial()
        self.origin = None
        self.ident = ident

    def __repr__(self):
        return "DictVal(%s)" % (self.map,)


class SetVal(V):
    """A set, as the sequence it was made from."""

    __slots__ = ("seq", "serial")

    def __init__(self, seq):
        self.seq, self.serial = seq, serial()


class ObjVal(V):
    __slots__ = ("cls", "attrs", "serial", "origin", "ident", "stub")

    def __init__(self, cls, attrs=None, stub=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.serial = serial()
        self.origin = None
        self.ident = None
        self.stub = stub  # engine-side behaviour of a library object

    def __repr__(self):
        return "<%s %s>" % (getattr(self.cls, "name", self.cls), sorted(self.attrs))


# ---------------------------------------------------------------- sequences
class Ex:
    """Explicit elements."""

    def __init__(self, elems):
        self.elems = list(elems)

    def __repr__(self):
        return "%r" % (self.elems,)


class Tab:
    """n elements, the i-th given by body (a value with index constant i free)."""

    def __init__(self, n, i, body, shared=False):
        self.n, self.i, self.body, self.shared = n, i, body, shared

    def __repr__(self):
        return "[%r | %s<%s]" % (self.body, self.i, self.n)


class Comp:
    """List comprehension: generators, each ('r', var, n) for 0<=var<n or
    ('k', var, has) for the keys of a dict in some order, a condition, and a body."""

    def __init__(self, gens, cond, body):
        self.gens, self.cond, self.body = gens, cond, body

    def __repr__(self):
        return "[%r | %s if %s]" % (self.body, self.gens, self.cond)


class Cat:
    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return " ++ ".join(map(repr, self.parts))


class StateSeq:
    """The unknown part a list had when the loop iteration under analysis began."""

    def __init__(self, token):
        self.token = token

    def __repr__(self):
        return "<state %s>" % (self.token,)


# ---------------------------------------------------------------- dict maps
class CMap:
    """A dict with engine values under concrete hashable keys."""

    def __init__(self, d):
        self.d = dict(d)

    def __repr__(self):
        return "%r" % (self.d,)


class SMap:
    """A symbolic dict: key constant k, condition has(k), value val (k free).

    bound: keys are ints in [0, bound) when given.  Where val is a number it is 0 for
    absent keys (kept as a normal form by every operation)."""

    def __init__(self, k, has, val, bound=None):
        self.k, self.has, self.val, self.bound = k, has, val, bound

    def __repr__(self):
        return "{%s: %r if %s}" % (self.k, self.val, self.has)


# ---------------------------------------------------------------- helpers
def is_num(v):
    return isinstance(v, (int, float, SInt, SFl, SBool)) and not isinstance(v, type)


def const(e):
    """The Python value of a literal z3 term, else None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def simp(e):
    return z3.simplify(e, sort_sums=True)


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("int expected: %r" % (v,))


def zreal_of(x):
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def zreal(v):
    """z3 Real of a finite number."""
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return z3.RealVal(0)
        return zreal_of(v)
    if isinstance(v, SFl):
        return v.e
    if isinstance(v, SInt):
        return z3.ToReal(v.e)
    if isinstance(v, SBool):
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported("number expected: %r" % (v,))


def fkind(v):
    """Kind of a number: None = finite, an int constant, or a z3 Int."""
    if isinstance(v, SFl):
        return v.k
    if isinstance(v, float):
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return PINF if v > 0 else NINF
    return None


def zkind(v):
    k = fkind(v)
    if k is None:
        return z3.IntVal(FIN)
    if isinstance(k, int):
        return z3.IntVal(k)
    return k


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.e
    raise Unsupported("bool expected: %r" % (v,))


def mkint(e):
    if isinstance(e, int):
        return e
    e = simp(e)
    c = const(e)
    return c if c is not None else SInt(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    c = const(e)
    if c is None:
        e2 = simp(e)
        c = const(e2)
        if c is None:
            return SBool(e)
    return bool(c)


_lits = {}


def lit(s):
    """The opaque constant of a literal (string, int used as a label, None...)."""
    key = (type(s).__name__, s)
    if key not in _lits:
        _lits[key] = z3.Const("lit!%s!%r" % key, Obj)
    return _lits[key]


def literals():
    return _lits
