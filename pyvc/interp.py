"""Symbolic execution of the real source: an AST interpreter over symbolic values, with
path exploration by decision replay and loop summaries (see loops.py)."""
import ast
import math
import operator
import os
import zlib
from fractions import Fraction

import z3

from . import logic
from .logic import AGGS, mk_agg, mk_any, mk_kany, mk_ksum, mk_sum
from .seqs import *
from .seqs import dflt, key_sort, merge, merge2, norm_seq, norm_val, same, seq_at, seq_len, sub, terms, to_smap, zobj
from .values import *
from .values import FIN, NAN, NINF, PINF


class PyRaise(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, cls, args=(), value=None):
        Exception.__init__(self, cls, args)
        self.cls, self.eargs, self.value = cls, args, value

    @property
    def name(self):
        return self.cls.__name__ if isinstance(self.cls, type) else self.cls.name


class Infeasible(Exception):
    pass


class PathLimit(Unsupported):
    pass


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class NeedName(Exception):
    """A loop-carried variable was read: it must become part of the loop state."""

    def __init__(self, frame, name):
        self.frame, self.name = frame, name


class NeedObj(Exception):
    """An object from outside the loop was changed: it must become loop state."""

    def __init__(self, obj, token=None):
        self.obj, self.token = obj, token


class NoFork(Exception):
    pass


class Poison(V):
    __slots__ = ("name", "token")

    def __init__(self, name, token):
        self.name, self.token = name, token


def str_len(e):
    f = z3.Function("str_len", Obj, INT)
    logic.AXIOMS.setdefault("str_len", [lambda o: f(o) >= 0])
    return f(e)


class Late(V):
    """A variable last assigned inside a summarised loop, computed when it is read."""

    __slots__ = ("fn", "loose")

    def __init__(self, fn, loose=False):
        self.fn, self.loose = fn, loose  # loose: perhaps never assigned at all


class Env:
    __slots__ = ("vars", "parent", "mod", "func", "globs", "yields", "nonloc", "serial")

    def __init__(self, parent, mod, func=None):
        self.serial = serial()
        self.vars, self.parent, self.mod, self.func = {}, parent, mod, func
        self.globs, self.nonloc, self.yields = set(), set(), None


class ModuleVal(V):
    __slots__ = ("name", "ns", "serial")

    def __init__(self, name, ns=None):
        self.name, self.ns, self.serial = name, ns if ns is not None else {}, 0

    def __repr__(self):
        return "<module %s>" % self.name


class FuncVal(V):
    __slots__ = ("name", "args", "body", "env", "mod", "defaults", "kwdefaults", "is_gen", "is_lambda", "owner", "qual", "attrs", "serial")

    def __repr__(self):
        return "<function %s>" % self.qual

    def sub(self, pairs):
        # closures over an index constant cannot be re-indexed
        e = self.env
        names = {p[0].decl().name() for p in pairs}
        used = {n.id for b in (self.body if isinstance(self.body, list) else [self.body]) for n in ast.walk(b) if isinstance(n, ast.Name)}
        repl = {}
        while e is not None:
            for k, v in e.vars.items():
                if k in used and k not in repl and not isinstance(v, (FuncVal, ModuleVal, ClassVal, Poison, Late)):
                    repl[k] = None
                    if any(c.decl().name() in names for c in logic.consts_of(terms(v))):
                        repl[k] = sub(v, pairs)
            e = e.parent
        repl = {k: v for k, v in repl.items() if v is not None}
        if not repl:
            return self
        g = FuncVal.__new__(FuncVal)
        for s in FuncVal.__slots__:
            setattr(g, s, getattr(self, s, None))
        g.env = Env(self.env, self.mod, None)
        g.env.vars.update(repl)
        return g

    def terms(self, acc):
        used = {n.id for b in (self.body if isinstance(self.body, list) else [self.body]) for n in ast.walk(b) if isinstance(n, ast.Name)}
        e, seen = self.env, set()
        while e is not None:
            for k, v in e.vars.items():
                if k in used and k not in seen and not isinstance(v, (FuncVal, ModuleVal, ClassVal)):
                    seen.add(k)
                    if not isinstance(v, (Poison, Late)):
                        terms(v, acc)
            e = e.parent


class BoundMethod(V):
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def sub(self, pairs):
        return BoundMethod(sub(self.func, pairs), sub(self.self_, pairs))

    def terms(self, acc):
        terms(self.self_, acc)


class Builtin(V):
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Partial(V):
    __slots__ = ("func", "args", "kw")

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw

    def sub(self, pairs):
        return Partial(sub(self.func, pairs), [sub(a, pairs) for a in self.args], {k: sub(v, pairs) for k, v in self.kw.items()})

    def terms(self, acc):
        terms(self.func, acc)
        for a in list(self.args) + list(self.kw.values()):
            terms(a, acc)


class ClassVal(V):
    __slots__ = ("name", "bases", "ns", "mod", "serial")

    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod, self.serial = name, bases, ns, mod, 0

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassVal) and name in c.ns:
                return c.ns[name]
        return None

    def defines(self, name):
        return any(isinstance(c, ClassVal) and name in c.ns for c in self.mro())

    def is_sub(self, other):
        return any(c is other for c in self.mro())

    def __repr__(self):
        return "<class %s>" % self.name


class LibClass(V):
    """Class of a library object (estimator stub): only its name matters."""

    __slots__ = ("name", "serial")

    def __init__(self, name):
        self.name, self.serial = name, 0

    def lookup(self, name):
        return None


class PropertyVal(V):
    __slots__ = ("fget",)

    def __init__(self, fget):
        self.fget = fget


class StaticVal(V):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class SuperVal(V):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


ANY = ("any", "leaf", "number")  # tags of opaque values of unknown type


class TypeVal(V):
    """type(v) of a library value (numpy scalar...)."""

    __slots__ = ("module", "name", "base")

    def __init__(self, module, name, base=None):
        self.module, self.name, self.base = module, name, base


class Outcome:
    __slots__ = ("conds", "kind", "value")

    def __init__(self, conds, kind, value):
        self.conds, self.kind, self.value = conds, kind, value


REPO = os.environ.get("PYVC_REPO", "/repo")
PKGS = ("pure_sklearn", "pure_fasttext")

OPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
    ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
}
NATIVE = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
    "%": operator.mod, "**": operator.pow, "&": operator.and_, "|": operator.or_, "^": operator.xor,
    "<<": operator.lshift, ">>": operator.rshift,
}


def native(v):
    """Fully concrete immutable Python value?"""
    if v is None or isinstance(v, (int, float, str, bytes, bool)):
        return True
    if isinstance(v, tuple):
        return all(native(x) for x in v)
    return False


class Interp:
    def __init__(self, repo=REPO, extra_paths=()):
        self.given = {}
        self.recorders = []  # of warnings, see builtin.warn
        self.inductive = {}
        self.while_hints = {}
        self.repo = repo
        self.extra_paths = list(extra_paths)
        self.modules = {}
        self.pc = []
        self.trail = []
        self.pos = 0
        self.pending = None
        self.names = 0
        self.base = 1
        self.log = []
        self.templates = []  # [(serial mark, set of allowed object ids, token)]
        self.nofork = False
        self.depth = 0
        self.dims = []  # z3 Int terms that may bound loop variables
        self.max_paths = 400
        self.calls = 0
        self.used_funcs = {}
        self.swap = {}  # qualified name -> (contract spec function) used at call sites
        self.hooks = {}
        self.trusted = set()
        self.loop_obligations = []
        self.elem_cache = {}
        self.mark = 0
        from . import builtin as _b

        self.builtins = _b.make(self)
        self.stubs = _b.modules(self)

    # ------------------------------------------------------------ exploration
    while_hints = None

    def fresh(self, sort=INT, tag="ix"):
        self.names += 1
        h = zlib.crc32(("%d/%d/%s" % (self.base, self.names, self.trail)).encode())
        return z3.Const("%s!%d_%x" % (tag, self.names, h), sort)

    def explore(self, fn, assume=(), template=None):
        """All feasible paths of fn.  Side effects are undone afterwards."""
        saved = (self.pc, self.trail, self.pos, self.pending, self.names, self.base)
        mark = len(self.log)
        saved_mark, self.mark = self.mark, last_serial()
        base = zlib.crc32(("%d/%d/%s" % (self.base, self.names, self.trail[: self.pos])).encode())
        stack, outs = [[]], []
        if template is not None:
            self.templates.append(template)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("exploration too deep")
        try:
            while stack:
                if len(outs) > self.max_paths:
                    raise PathLimit("too many paths")
                self.trail = stack.pop()
                self.pos = 0
                self.pending = stack
                self.pc = saved[0] + list(assume)
                self.names, self.base = 0, base
                n0 = len(self.pc)
                try:
                    try:
                        v = fn()
                        out = ("ok", v)
                    except PyRaise as e:
                        out = ("raise", e)
                    outs.append(Outcome(self.pc[n0:], *out))
                except Infeasible:
                    pass
                finally:
                    self.rollback(mark)
        finally:
            if template is not None:
                self.templates.pop()
            self.depth -= 1
            self.rollback(mark)
            self.mark = saved_mark
            self.pc, self.trail, self.pos, self.pending, self.names, self.base = saved
            self.names += 1
        return outs

    def branch(self, c):
        """Forks on a z3 condition; returns the side taken on this path."""
        if isinstance(c, bool):
            return c
        c = simp(c)
        k = const(c)
        if k is not None:
            return bool(k)
        if self.pos < len(self.trail):
            b = self.trail[self.pos]
            self.pos += 1
            if not isinstance(b, tuple):
                self.pc.append(c if b else simp(z3.Not(c)))
                return b
            return b[0]  # decided without forking
        nc = simp(z3.Not(c))
        if logic.quick_unsat(self.pc, nc):
            ft, ff = True, False
        elif logic.quick_unsat(self.pc, c):
            self.trail.append((False,))
            self.pos += 1
            return False
        else:
            ft = logic.feasible(self.pc, c)
            ff = logic.feasible(self.pc, nc) if ft else True
        if ft and ff:
            if self.nofork:
                raise NoFork()
            if self.pending is None:
                raise Unsupported("symbolic condition outside exploration")
            self.pending.append(self.trail[: self.pos] + [False])
            self.trail.append(True)
            self.pos += 1
            self.pc.append(c)
            return True
        if not ft and not logic.feasible(self.pc, z3.Not(c)):
            raise Infeasible()
        self.trail.append((ft,))
        self.pos += 1
        return ft

    def assume(self, c):
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.pc.append(c)

    def entails(self, c):
        if isinstance(c, bool):
            return c
        return logic.entails(self.pc, c)

    # ------------------------------------------------------------ mutation log
    def rollback(self, mark):
        while len(self.log) > mark:
            kind, o, k, old = self.log.pop()
            if kind == "attr":
                setattr(o, k, old)
            elif old is _MISSING:
                o.pop(k, None)
            else:
                o[k] = old

    def set_field(self, obj, field, val, check=True):
        if check:
            self.check_mutation(obj)
        if obj.serial <= self.mark:
            # objects made on the current path need no undoing
            self.log.append(("attr", obj, field, getattr(obj, field)))
        setattr(obj, field, val)
        self.write_back(obj)

    def set_key(self, d, k, val, owner=None):
        if owner is None or owner.serial <= self.mark:
            self.log.append(("key", d, k, d.get(k, _MISSING)))
        d[k] = val

    def del_key(self, d, k, owner=None):
        if owner is None or owner.serial <= self.mark:
            self.log.append(("key", d, k, d.get(k, _MISSING)))
        d.pop(k, None)

    def check_mutation(self, obj):
        if self.templates:
            mark, allowed, token = self.templates[-1]
            if obj.serial <= mark and id(obj) not in allowed:
                o = getattr(obj, "origin", None)
                raise NeedObj(obj if o is None else self.root_of(obj), token)
            o = getattr(obj, "origin", None)
            if o is not None:
                root = self.root_of(obj)
                if root.serial <= mark and id(root) not in allowed:
                    raise NeedObj(root, token)

    def root_of(self, obj):
        while getattr(obj, "origin", None) is not None:
            obj = obj.origin[0]
        return obj

    def write_back(self, obj):
        """Propagates a change of a list element into the list it came from."""
        o = getattr(obj, "origin", None)
        if o is None:
            return
        parent, kind, idx = o
        if kind == "seq":
            s = parent.seq
            if isinstance(s, Tab):
                old = s.body
                new = merge2(s.i == idx, obj_copy(obj), old)
                if isinstance(new, Choice):
                    raise Unsupported("update of a list element changes its shape")
                ns = Tab(s.n, s.i, new)
                if parent.serial <= self.mark:
                    self.log.append(("attr", parent, "seq", s))
                parent.seq = ns
                self.write_back(parent)
                return
        if kind == "map":
            m = parent.map
            if isinstance(m, SMap):
                new = merge2(m.k == idx, obj_copy(obj), m.val)
                if isinstance(new, Choice):
                    raise Unsupported("update of a dict value changes its shape")
                if parent.serial <= self.mark:
                    self.log.append(("attr", parent, "map", m))
                parent.map = SMap(m.k, m.has, new, m.bound)
                self.write_back(parent)
                return
        raise Unsupported("write back into %r" % (parent,))

    # ------------------------------------------------------------ modules
    def find(self, name):
        rel = name.replace(".", "/")
        for root in [self.repo] + self.extra_paths:
            for p in (os.path.join(root, rel + ".py"), os.path.join(root, rel, "__init__.py")):
                if os.path.exists(p):
                    if root == self.repo and name.split(".")[0] not in PKGS:
                        continue
                    return p
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stubs:
            m = self.stubs[name]
            self.modules[name] = m
            return m
        path = self.find(name)
        if path is None:
            return self.stub_module(name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        with open(path) as fh:
            src = fh.read()
        m = ModuleVal(name)
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        self.modules[name] = m
        tree = ast.parse(src, path)
        env = Env(None, m)
        env.vars = m.ns
        env.func = None
        saved = (self.pc, self.pending, self.nofork, self.templates)
        self.templates = []
        try:
            self.exec_block(tree.body, env)
        finally:
            self.templates = saved[3]
        if "." in name:
            pkg, last = name.rsplit(".", 1)
            self.modules[pkg].ns.setdefault(last, m)
        return m

    def stub_module(self, name):
        m = ModuleVal(name)
        self.modules[name] = m
        return m

    def do_import(self, node, env):
        if isinstance(node, ast.Import):
            for a in node.names:
                m = self.load(a.name)
                if a.asname:
                    self.assign_name(env, a.asname, m)
                else:
                    self.assign_name(env, a.name.split(".")[0], self.load(a.name.split(".")[0]))
            return
        base = node.module or ""
        if node.level:
            cur = env.mod.name.split(".")
            is_pkg = env.mod.ns.get("__file__", "").endswith("__init__.py")
            cur = cur if is_pkg else cur[:-1]
            cur = cur[: len(cur) - (node.level - 1)]
            base = ".".join(cur + ([base] if base else []))
        m = self.load(base)
        for a in node.names:
            if a.name == "*":
                for k, v in m.ns.items():
                    if not k.startswith("_"):
                        self.assign_name(env, k, v)
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            elif self.find(base + "." + a.name):
                v = self.load(base + "." + a.name)
            elif base in self.stubs or self.find(base) is None:
                v = Builtin(base + "." + a.name, _unsupported_call(base + "." + a.name))
            else:
                raise PyRaise(ImportError, (a.name,))
            self.assign_name(env, a.asname or a.name, v)

    # ------------------------------------------------------------ names
    def assign_name(self, env, name, v):
        if name in env.globs:
            self.set_key(env.mod.ns, name, v)
            return
        if name in env.nonloc:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    self.set_key(e.vars, name, v, e)
                    return
                e = e.parent
        self.set_key(env.vars, name, v, env)

    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise NeedName(v.token, v.name)
                if isinstance(v, Late):
                    v = v.fn()
                    self.set_key(e.vars, name, v, e)
                return v
            e = e.parent
        if name in env.mod.ns:
            return env.mod.ns[name]
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise(NameError, (name,))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.eval(s.value, env)
        elif t is ast.Assign:
            v = self.eval(s.value, env)
            for tgt in s.targets:
                self.assign(tgt, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, env), env)
        elif t is ast.AugAssign:
            self.augassign(s, env)
        elif t is ast.Return:
            raise ReturnSig(None if s.value is None else self.eval(s.value, env))
        elif t is ast.If:
            if self.truth(self.eval(s.test, env)):
                self.exec_block(s.body, env)
            else:
                self.exec_block(s.orelse, env)
        elif t is ast.For:
            from .loops import for_loop

            for_loop(self, s, env)
        elif t is ast.While:
            from .loops import while_loop

            while_loop(self, s, env)
        elif t is ast.FunctionDef:
            self.assign_name(env, s.name, self.make_func(s, env))
        elif t is ast.ClassDef:
            self.assign_name(env, s.name, self.make_class(s, env))
        elif t in (ast.Import, ast.ImportFrom):
            self.do_import(s, env)
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise BreakSig()
        elif t is ast.Continue:
            raise ContinueSig()
        elif t is ast.Raise:
            self.do_raise(s, env)
        elif t is ast.Try:
            self.do_try(s, env)
        elif t is ast.With:
            depth = len(self.recorders)
            for item in s.items:
                cm = self.eval(item.context_expr, env)
                if isinstance(cm, ObjVal) and isinstance(cm.cls, LibClass) and cm.cls.name == "catch_warnings":
                    log = ListVal(Ex([])) if cm.attrs.get("record") else None
                    outer = self.recorders[-1] if self.recorders else (None, False)
                    self.recorders.append((log, False) if log is not None else outer)
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, log, env)
                    continue
                if isinstance(cm, ObjVal) and isinstance(cm.cls, ClassVal):
                    raise Unsupported("context manager of a class under test")
                v = self.call(self.getattr(cm, "__enter__"), [], {}) if self.hasattr(cm, "__enter__") else cm
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, env)
            try:
                self.exec_block(s.body, env)
            finally:
                del self.recorders[depth:]
        elif t is ast.Assert:
            if not self.truth(self.eval(s.test, env)):
                raise PyRaise(AssertionError)
        elif t is ast.Global:
            env.globs.update(s.names)
        elif t is ast.Nonlocal:
            env.nonloc.update(s.names)
        elif t is ast.Delete:
            for tgt in s.targets:
                if isinstance(tgt, ast.Name):
                    self.del_key(env.vars, tgt.id, env)
                elif isinstance(tgt, ast.Subscript):
                    self.del_item(self.eval(tgt.value, env), self.eval(tgt.slice, env))
                else:
                    raise Unsupported("del")
        else:
            raise Unsupported("statement %s" % t.__name__)

    def assign(self, tgt, v, env):
        t = type(tgt)
        if t is ast.Name:
            self.assign_name(env, tgt.id, v)
        elif t in (ast.Tuple, ast.List):
            v = self.force(v)
            stars = [k for k, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            if stars:
                items = self.explicit(v)
                k = stars[0]
                after = len(tgt.elts) - k - 1
                if len(items) < k + after:
                    raise PyRaise(ValueError, ("unpack",))
                vals = items[:k] + [ListVal(Ex(items[k: len(items) - after]))] + items[len(items) - after:]
                for e, x in zip(tgt.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            items = self.explicit(v, len(tgt.elts))
            if len(items) != len(tgt.elts):
                raise PyRaise(ValueError, ("unpack",))
            for e, x in zip(tgt.elts, items):
                self.assign(e, x, env)
        elif t is ast.Subscript:
            self.set_item(self.eval(tgt.value, env), self.eval_slice(tgt.slice, env), v)
        elif t is ast.Attribute:
            self.setattr(self.eval(tgt.value, env), tgt.attr, v)
        else:
            raise Unsupported("assignment to %s" % t.__name__)

    def augassign(self, s, env):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.force(self.lookup(env, t.id))
            v = self.eval(s.value, env)
            if isinstance(cur, ListVal) and op == "+":
                self.list_extend(cur, v)
                return
            self.assign_name(env, t.id, self.binop(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_slice(t.slice, env)
            cur = self.force(self.get_item(o, k))
            v = self.eval(s.value, env)
            if isinstance(cur, ListVal) and op == "+":
                self.list_extend(cur, v)
                return
            self.set_item(o, k, self.binop(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.force(self.getattr(o, t.attr))
            v = self.eval(s.value, env)
            if isinstance(cur, ListVal) and op == "+":
                self.list_extend(cur, v)
                return
            self.setattr(o, t.attr, self.binop(op, cur, v))

    def do_raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "_handling", None)
            if cur:
                raise cur[-1]
            raise PyRaise(RuntimeError)
        v = self.eval(s.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v)
        if isinstance(v, ObjVal) and isinstance(v.cls, type):
            raise PyRaise(v.cls, v.attrs.get("args", ()), v)
        if isinstance(v, ObjVal):
            raise PyRaise(v.cls, v.attrs.get("args", ()), v)
        if isinstance(v, ClassVal):
            raise PyRaise(v)
        raise Unsupported("raise %r" % (v,))

    def exc_matches(self, e, h):
        if h is None:
            return True
        if isinstance(h, tuple):
            return any(self.exc_matches(e, x) for x in h)
        if isinstance(e.cls, type):
            return isinstance(h, type) and issubclass(e.cls, h)
        if isinstance(h, ClassVal):
            return e.cls.is_sub(h)
        return any(isinstance(c, type) and issubclass(c, h) for c in e.cls.mro())

    def do_try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    cls = None if h.type is None else self.eval(h.type, env)
                    if self.exc_matches(e, cls):
                        if h.name:
                            val = e.value if e.value is not None else ObjVal(e.cls, {"args": tuple(e.eargs)})
                            self.assign_name(env, h.name, val)
                        hs = self.__dict__.setdefault("_handling", [])
                        hs.append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            hs.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (ReturnSig, BreakSig, ContinueSig, PyRaise):
            self.exec_block(s.finalbody, env)
            raise
        self.exec_block(s.finalbody, env)

    # ------------------------------------------------------------ functions, classes
    def make_func(self, node, env, lam=False):
        f = FuncVal()
        f.name = "<lambda>" if lam else node.name
        f.args, f.body, f.env, f.mod = node.args, node.body, env, env.mod
        f.is_lambda = lam
        f.defaults = [self.eval(d, env) for d in node.args.defaults]
        f.kwdefaults = [None if d is None else self.eval(d, env) for d in node.args.kw_defaults]
        f.is_gen = (not lam) and _has_yield(node.body)
        f.owner = None
        f.attrs = {}
        f.serial = serial()
        owner = env.func if isinstance(env.func, str) else (env.func.qual + ".<locals>" if isinstance(env.func, FuncVal) else None)
        f.qual = "%s.%s" % (env.mod.name, (owner + "." if owner else "") + f.name)
        if env.func is not None and isinstance(env.func, FuncVal):
            f.qual = "%s.<locals>.%s" % (env.func.qual, f.name)
            f.owner = env.func.owner if lam else None
        if lam or not node.decorator_list:
            return f
        v = f
        for d in reversed(node.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        return v

    def make_class(self, node, env):
        bases = [self.eval(b, env) for b in node.bases]
        cenv = Env(env if env.func is not None or env.parent is not None else None, env.mod, node.name)
        c = ClassVal(node.name, bases, {}, env.mod.name)
        for s in node.body:
            self.exec(s, cenv)
        c.ns = cenv.vars
        if isinstance(c.ns.get("__module__"), str):
            c.mod = c.ns["__module__"]
        for v in c.ns.values():
            for f in (v, getattr(v, "fget", None), getattr(v, "f", None)):
                if isinstance(f, FuncVal) and f.owner is None:
                    f.owner = c
            if isinstance(v, ObjVal):
                for f in v.attrs.values():
                    if isinstance(f, FuncVal) and f.owner is None:
                        f.owner = c
        r = c
        for d in reversed(node.decorator_list):
            r = self.call(self.eval(d, env), [r], {})
        return r

    def call(self, f, args, kw):
        f = self.force(f)
        self.calls += 1
        if self.calls > 3000000:
            raise Unsupported("too many calls")
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + list(args), dict(f.kw, **kw))
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, type):
            if issubclass(f, BaseException):
                return ObjVal(f, {"args": tuple(args)})
            return self.call(self.builtins[f.__name__ + "()"], args, kw)
        if isinstance(f, ObjVal):
            m = self.find_attr(f.cls, "__call__") if isinstance(f.cls, ClassVal) else None
            if m is not None:
                return self.call(m, [f] + list(args), kw)
            if f.stub is not None and hasattr(f.stub, "call"):
                return f.stub.call(self, f, args, kw)
        if isinstance(f, TypeVal):
            conv = {"float64": float, "float32": float, "int64": int, "int32": int, "str_": str}.get(f.name) if f.module == "numpy" else None
            if conv is not None and f.base is None:
                return NpS(self.call(self.builtins[conv.__name__ + "()"], args, kw), f.name)
            if f.base is not None:
                return NpS(self.call(self.builtins[f.base.__name__ + "()"], args, kw), f.name)
        if f is None or native(f) or isinstance(f, (ListVal, DictVal, SObj)):
            raise PyRaise(TypeError, ("not callable",))
        raise Unsupported("call of %r" % (f,))

    def find_attr(self, cls, name):
        return cls.lookup(name)

    def instantiate(self, c, args, kw):
        if any(b is list for b in c.mro()):
            o = ListVal(Ex([]), "list", c, {})
        elif any(isinstance(b, type) and issubclass(b, BaseException) for b in c.mro()):
            o = ObjVal(c, {"args": tuple(args)})
        elif any(b is dict for b in c.mro()):
            raise Unsupported("dict subclass")
        else:
            o = ObjVal(c)
        init = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
        elif isinstance(o, ListVal) and args:
            self.list_extend(o, args[0])
        elif args and isinstance(o, ObjVal) and "args" not in o.attrs:
            raise PyRaise(TypeError, ("no arguments expected",))
        return o

    def bind_args(self, f, args, kw, env):
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError, ("too many arguments for %s" % f.name,))
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        for n in names[len(args):]:
            if n in kw:
                vals[n] = kw.pop(n)
        nd = len(f.defaults)
        for j, n in enumerate(names):
            if n not in vals:
                d = j - (len(names) - nd)
                if d < 0:
                    raise PyRaise(TypeError, ("%s() missing argument %s" % (f.name, n),))
                vals[n] = f.defaults[d]
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif d is not None:
                vals[x.arg] = d
            else:
                raise PyRaise(TypeError, ("missing keyword",))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictVal(CMap(kw))
        elif kw:
            raise PyRaise(TypeError, ("unexpected keyword %s" % sorted(kw),))
        env.vars.update(vals)

    def call_func(self, f, args, kw):
        if f.qual in self.swap:
            r = self.swap[f.qual](self, f, args, kw)
            if r is not NotImplemented:
                return r
        self.used_funcs[f.qual] = self.used_funcs.get(f.qual, 0) + 1
        env = Env(f.env if f.env is not None and f.env.vars is not f.mod.ns else None, f.mod, f)
        if f.env is not None and isinstance(f.env.func, str):
            env.parent = f.env.parent
        self.bind_args(f, args, kw, env)
        if f.qual in self.given:
            return self.call_given(f, env)
        if f.qual in self.inductive and f.qual in self.__dict__.get("_stack", ()):
            # a recursive call on a part that is not known: by the contract itself
            v = self.force(env.vars[f.args.args[0].arg])
            if isinstance(v, SObj) and v.tag == "any":
                from .builtin import is_plain

                if self.inductive[f.qual] == "holds":
                    return mkbool(is_plain(v))
                if self.branch(is_plain(v)):
                    return None
                raise PyRaise(ValueError, ("refused",))
        stack = self.__dict__.setdefault("_stack", [])
        if len(stack) > 90:
            raise Unsupported("recursion too deep in %s" % f.qual)
        stack.append(f.qual)
        try:
            if f.is_lambda:
                return self.eval(f.body, env)
            if f.is_gen:
                hidden = ListVal(Ex([]))
                env.yields = hidden
                try:
                    self.exec_block(f.body, env)
                except ReturnSig:
                    pass
                return IterVal(hidden.seq)
            try:
                self.exec_block(f.body, env)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            stack.pop()

    def call_given(self, f, env):
        """A function known by its contract only: some integer in a range, a function of its
        arguments. Functions given the same name are the same by their own contracts."""
        name, lo, hi = self.given[f.qual]
        vals = [self.force(env.vars[a.arg]) for a in f.args.args]
        ts = [zint(v) if isinstance(v, (int, SInt)) else zobj(v) for v in vals]
        g = z3.Function("given!" + name, *[t.sort() for t in ts], INT)
        logic.AXIOMS["given!" + name] = [lambda *a: z3.And(g(*a) >= lo, g(*a) < hi)]
        return SInt(g(*ts))

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        t = type(e)
        m = getattr(self, "e_" + t.__name__, None)
        if m is None:
            raise Unsupported("expression %s" % t.__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(env, e.id)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Call(self, e, env):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = env
            while fr is not None and not (isinstance(fr.func, FuncVal) and fr.func.owner is not None):
                fr = fr.parent
            if fr is None:
                raise Unsupported("super() outside a method")
            first = fr.func.args.args[0].arg
            return SuperVal(fr.func.owner, fr.vars[first])
        f = self.eval(e.func, env)
        args, kw = [], {}
        star = [a for a in e.args if isinstance(a, ast.Starred)]
        if star and len(e.args) == 1:
            v = self.force(self.eval(star[0].value, env))
            if isinstance(f, Builtin) and f.name == "zip":
                s = self.to_seq(v)
                if not isinstance(s, Ex):
                    return self.builtins["zip*"].fn(self, [s], {})
                return self.call(f, s.elems, kw)
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.explicit(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, env))
                if not (isinstance(d, DictVal) and isinstance(d.map, CMap)):
                    raise Unsupported("** of a symbolic dict")
                kw.update(d.map.d)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(OPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, env):
        v = self.force(self.eval(e.operand, env))
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.e))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if native(v):
                return ~v
            return mkint(-zint(v) - 1)
        raise Unsupported("unary")

    def neg(self, v):
        if isinstance(v, NpS):
            return NpS(self.neg(v.v), v.np)
        if native(v):
            return -v
        if isinstance(v, (SInt, SBool)):
            return mkint(-zint(v))
        if isinstance(v, SFl):
            if v.k is None:
                return SFl(simp(-v.e))
            return SFl(simp(-v.e), simp(z3.If(v.k == PINF, z3.IntVal(NINF), z3.If(v.k == NINF, z3.IntVal(PINF), v.k))))
        raise PyRaise(TypeError, ("bad operand for unary -",))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env)
            if x is e.values[-1]:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            res = self.compare(op, left, right)
            if k < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def e_Lambda(self, e, env):
        return self.make_func(e, env, lam=True)

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return tuple(self.explicit(self.e_List(e, env)))
        return tuple(self.eval(x, env) for x in e.elts)

    def e_List(self, e, env):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.append(self.to_seq(self.eval(x.value, env)))
            else:
                parts.append(Ex([self.eval(x, env)]))
        return ListVal(norm_seq(Cat(parts)))

    def e_Set(self, e, env):
        return SetVal(Ex([self.eval(x, env) for x in e.elts]))

    def e_Dict(self, e, env):
        d = DictVal(CMap({}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.force(self.eval(v, env))
                if not d.map.d if isinstance(d.map, CMap) else False:
                    d.map = o.map
                elif isinstance(o.map, CMap):
                    for a, b in o.map.d.items():
                        self.dict_set(d, a, b)
                else:
                    raise Unsupported("** in dict display")
            else:
                self.dict_set(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_ListComp(self, e, env):
        return ListVal(self.comp(e, env, lambda sub_env: self.eval(e.elt, sub_env)))

    def e_GeneratorExp(self, e, env):
        return IterVal(self.comp(e, env, lambda sub_env: self.eval(e.elt, sub_env)))

    def e_SetComp(self, e, env):
        return SetVal(self.comp(e, env, lambda sub_env: self.eval(e.elt, sub_env)))

    def e_DictComp(self, e, env):
        s = self.comp(e, env, lambda sub_env: (self.eval(e.key, sub_env), self.eval(e.value, sub_env)))
        return self.dict_from_pairs(s)

    def comp(self, e, env, elt):
        from .loops import comprehension

        return comprehension(self, e.generators, env, elt)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.get_item(o, self.eval_slice(e.slice, env))

    def eval_slice(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.force(self.eval(x, env)) for x in (s.lower, s.upper, s.step)])
        return self.eval(s, env)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None:
                    if native(x):
                        spec = self.e_JoinedStr(v.format_spec, env)
                        parts.append(format(x, spec))
                        continue
                parts.append(self.to_str(x))
        return self.concat_str(parts)

    def e_FormattedValue(self, e, env):
        return self.to_str(self.eval(e.value, env))

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Yield(self, e, env):
        v = None if e.value is None else self.eval(e.value, env)
        fr = env
        while fr.yields is None:
            fr = fr.parent
        self.list_append(fr.yields, v)
        return None

    def e_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        fr = env
        while fr.yields is None:
            fr = fr.parent
        self.list_extend(fr.yields, v)
        return None

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    # ------------------------------------------------------------ strings
    def to_str(self, v):
        v = self.force(v)
        if isinstance(v, (str, SStr)):
            return v
        if native(v):
            return str(v)
        if isinstance(v, SObj):
            if v.tag == "str":
                return v
            return SObj(z3.Function("str_of", Obj, Obj)(v.e), "str")
        if isinstance(v, type):
            return "<class '%s'>" % v.__name__
        if isinstance(v, ClassVal):
            return "<class '%s.%s'>" % (v.mod, v.name)
        if isinstance(v, TypeVal):
            return "<class '%s.%s'>" % (v.module, v.name)
        if isinstance(v, (SInt,)):
            return SObj(z3.Function("str_of_int", INT, Obj)(v.e), "str")
        return SObj(self.fresh(Obj, "msg"), "str")

    def concat_str(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, SStr):
                out.extend(p.parts)
            elif isinstance(p, SObj):
                out.append(p.e)
            else:
                raise Unsupported("string part %r" % (p,))
        r = SStr(out)
        if not r.parts:
            return ""
        if len(r.parts) == 1:
            return r.parts[0] if isinstance(r.parts[0], str) else SObj(r.parts[0], "str")
        return r

    # ------------------------------------------------------------ truth, force
    def force(self, v):
        while isinstance(v, Choice):
            v = v.a if self.branch(v.cond) else v.b
        return v

    def truth(self, v):
        v = self.force(v)
        if native(v):
            return bool(v)
        if isinstance(v, SBool):
            return self.branch(v.e)
        if isinstance(v, SInt):
            return self.branch(z3.Not(logic.count_eq(v.e, z3.IntVal(0))))
        if isinstance(v, SFl):
            return self.branch(v.e != 0 if v.k is None else z3.Or(v.k != FIN, v.e != 0))
        if isinstance(v, NpS):
            return self.truth(v.v)
        if isinstance(v, (ListVal, IterVal)):
            if isinstance(v, IterVal):
                return True
            n = self.length(v)
            return self.truth(n)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, DictVal):
            if isinstance(v.map, CMap):
                return bool(v.map.d)
            m = v.map
            return self.branch(mk_kany(m.k, m.has, z3.BoolVal(True)))
        if isinstance(v, SetVal):
            return self.branch(self.seq_any(v.seq, lambda x: z3.BoolVal(True)))
        if isinstance(v, SObj):
            return self.branch(z3.Function("truthy", Obj, BOOL)(v.e))
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            return self.branch(z3.Function("truthy", Obj, BOOL)(zobj(v)))
        return True

    def as_cond(self, v):
        """v's truth value as a z3 condition, forking only where it must."""
        v = self.force(v)
        if isinstance(v, SBool):
            return v.e
        return z3.BoolVal(self.truth(v))

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if native(a) and native(b):
            try:
                r = NATIVE[op](a, b)
            except Exception as ex:
                raise PyRaise(type(ex), ex.args)
            if isinstance(r, float) and op in "+-*/" and all(map(math.isfinite, (r, a, b))):
                # exact, as the arithmetic of unknown values is
                x, y = Fraction(a), Fraction(b)
                q = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
                if q != Fraction(r):
                    return SFl(z3.Q(q.numerator, q.denominator))
            return r
        if isinstance(a, NpS) or isinstance(b, NpS):
            x = a.v if isinstance(a, NpS) else a
            y = b.v if isinstance(b, NpS) else b
            r = self.binop(op, x, y)
            return NpS(r, (a if isinstance(a, NpS) else b).np)
        if is_num(a) and is_num(b):
            return self.arith(op, a, b)
        if op == "+":
            if isinstance(a, (str, SStr, SObj)) and isinstance(b, (str, SStr, SObj)):
                return self.concat_str([self.to_str(a), self.to_str(b)])
            if isinstance(a, ListVal) and isinstance(b, ListVal):
                return ListVal(norm_seq(Cat([self.read_seq(a), self.read_seq(b)])), a.kind)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, tuple) and isinstance(b, ListVal) and b.kind == "tuple":
                return ListVal(norm_seq(Cat([Ex(list(a)), b.seq])), "tuple")
            if isinstance(b, tuple) and isinstance(a, ListVal) and a.kind == "tuple":
                return ListVal(norm_seq(Cat([a.seq, Ex(list(b))])), "tuple")
            raise PyRaise(TypeError, ("+",))
        if op == "*":
            if isinstance(b, (ListVal, tuple)) and is_num(a):
                a, b = b, a
            if isinstance(a, (ListVal, tuple)) and isinstance(b, (int, SInt)):
                return self.repeat(a, b)
            if isinstance(a, (ListVal, tuple)) and isinstance(b, (float, SFl)):
                raise PyRaise(TypeError, ("*",))
        if op == "%" and isinstance(a, (str, SStr)):
            return self.format_percent(a, b)
        if op in "-|&" and isinstance(a, SetVal) and isinstance(b, SetVal):
            return self.set_op(op, a, b)
        if isinstance(a, (ListVal, tuple, str, SStr, DictVal)) or isinstance(b, (ListVal, tuple, str, SStr, DictVal)) or a is None or b is None:
            if isinstance(a, ObjVal) or isinstance(b, ObjVal):
                pass
            else:
                raise PyRaise(TypeError, ("operands of %s" % op,))
        if isinstance(a, ObjVal) and a.stub is not None and hasattr(a.stub, "binop"):
            return a.stub.binop(self, op, a, b)
        if isinstance(a, SObj) or isinstance(b, SObj):
            x = a if isinstance(a, SObj) else b
            if x.tag in ("str", "label"):
                raise PyRaise(TypeError, ("operands of %s" % op,)) if x.tag == "str" else Unsupported("arithmetic on a label")
        raise Unsupported("%r %s %r" % (a, op, b))

    def arith(self, op, a, b):
        isf = isinstance(a, (float, SFl)) or isinstance(b, (float, SFl))
        if fkind(a) is not None or fkind(b) is not None:
            return self.ext_arith(op, a, b)
        if op in ("+", "-", "*"):
            if isf:
                x, y = zreal(a), zreal(b)
                r = x + y if op == "+" else x - y if op == "-" else x * y
                return SFl(simp(r))
            x, y = zint(a), zint(b)
            return mkint(x + y if op == "+" else x - y if op == "-" else x * y)
        if op == "/":
            y = zreal(b)
            if self.branch(y == 0):
                raise PyRaise(ZeroDivisionError)
            return SFl(simp(log_div(zreal(a), y)))
        if op in ("//", "%"):
            if isf:
                raise Unsupported("float //")
            x, y = zint(a), zint(b)
            if self.branch(y == 0):
                raise PyRaise(ZeroDivisionError)
            if not self.entails(y > 0):
                if not self.branch(y > 0):
                    # floor division by a negative number
                    q = -((x) / (-y))
                    raise Unsupported("negative divisor")
            if const(y) is None:
                qr = self.whole_multiples(x, y)
                if qr is not None:
                    return mkint(qr[0] if op == "//" else qr[1])
            return mkint(x / y if op == "//" else x % y)
        if op == "**":
            if isinstance(b, int) and 0 <= b <= 4:
                if isf:
                    r = z3.RealVal(1)
                    for _ in range(b):
                        r = r * zreal(a)
                    return SFl(simp(r))
                r = z3.IntVal(1)
                for _ in range(b):
                    r = r * zint(a)
                return mkint(r)
            if isinstance(b, float) and b == 0.5:
                return self.call(self.stubs["math"].ns["sqrt"], [a], {})
            if isinstance(b, float) and b == 2.0:
                return SFl(simp(zreal(a) * zreal(a)))
            if isinstance(b, int) and b < 0:
                return self.arith("/", 1.0, self.arith("**", a, -b))
            raise Unsupported("**")
        if op in ("&", "|", "^", "<<", ">>") and not isf:
            return self.bitop(op, a, b)
        raise Unsupported("arith %s" % op)

    def whole_multiples(self, x, y):
        """(q, r) with x == q * y + r and 0 <= r < y, read off the sum x."""
        x = simp(x)
        q, r = z3.IntVal(0), z3.IntVal(0)
        for t in (x.children() if z3.is_add(x) else [x]):
            if t.eq(y):
                q = q + 1
                continue
            fs = t.children() if z3.is_mul(t) else []
            hit = next((k for k, f in enumerate(fs) if f.eq(y)), None)
            if hit is None:
                r = r + t
            else:
                m = z3.IntVal(1)
                for k, f in enumerate(fs):
                    if k != hit:
                        m = m * f
                q = q + m
        q, r = simp(q), simp(r)
        return (q, r) if self.entails(z3.And(r >= 0, r < y)) else None

    def bitop(self, op, a, b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) and op in "&|^":
            x, y = zbool(a), zbool(b)
            return mkbool(z3.And(x, y) if op == "&" else z3.Or(x, y) if op == "|" else z3.Xor(x, y))
        x, y = zint(a), zint(b)
        if op == "<<" and isinstance(b, int):
            return mkint(x * (1 << b))
        if op == ">>" and isinstance(b, int):
            return mkint(x / (1 << b))
        if op == "&" and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
            return mkint(x % (b + 1))
        if op == "&" and isinstance(a, int) and a >= 0 and (a & (a + 1)) == 0:
            return mkint(y % (a + 1))
        if op == "&":
            for u, v in ((x, b), (y, a)):
                if isinstance(v, int) and not isinstance(v, bool) and v > 0 and v & (v - 1) == 0:
                    return mkint(u / v % 2 * v)
        if op == "^":
            for u, v in ((x, b), (y, a)):
                if isinstance(v, int) and not isinstance(v, bool) and v > 0 and v & (v + 1) == 0 and self.entails(z3.And(u >= 0, u <= v)):
                    return mkint(v - u)
        name = {"&": "bit_and", "|": "bit_or", "^": "bit_xor", "<<": "bit_shl", ">>": "bit_shr"}[op]
        x, y = simp(x), simp(y)
        logic.keep(x, y)
        f = z3.Function(name, INT, INT, INT)
        if op in "|^" and name not in logic.AXIOMS:
            # widths are kept (sizes that occur: bytes and words)
            logic.AXIOMS[name] = [lambda u, v, w=w: z3.Implies(z3.And(u >= 0, v >= 0, u < w, v < w), z3.And(f(u, v) >= 0, f(u, v) < w))
                                  for w in (1 << 8, 1 << 16, 1 << 24, 1 << 32)]
        if op in "&|^":
            return mkint(logic.ac_build(f, logic.ac_args(x, name) + logic.ac_args(y, name)))
        return mkint(f(x, y))

    def ext_arith(self, op, a, b):
        """Arithmetic where an operand may be infinite or nan: decide the kinds first."""
        a, b = self.split_kind(a), self.split_kind(b)
        ka, kb = fkind(a), fkind(b)
        if ka is None and kb is None:
            return self.arith(op, a, b)
        if ka == NAN or kb == NAN:
            return float("nan")
        if op in "+-":
            y = b if op == "+" else self.neg(b)
            if isinstance(a, float) and ka is not None and isinstance(y, float) and kb is not None:
                return a + y
            return a if ka is not None else y
        if op == "*":
            if ka is not None and kb is not None:
                return a * b
            inf, fin = (a, b) if ka is not None else (b, a)
            if self.branch(zreal(fin) == 0):
                return float("nan")
            return inf if self.branch(zreal(fin) > 0) else -inf
        if op == "/":
            if ka is None:
                return 0.0
            if kb is not None:
                return float("nan")
            if self.branch(zreal(b) == 0):
                raise PyRaise(ZeroDivisionError)
            return a if self.branch(zreal(b) > 0) else -a
        if op == "**" and b == 2:
            return float("inf")
        raise Unsupported("infinite %s" % op)

    def split_kind(self, v):
        k = fkind(v)
        if k is None or isinstance(k, int):
            return v
        if self.branch(k == FIN):
            return SFl(v.e)
        if self.branch(k == PINF):
            return float("inf")
        if self.branch(k == NINF):
            return float("-inf")
        return float("nan")

    def repeat(self, a, n):
        a = ListVal(Ex(list(a)), "tuple") if isinstance(a, tuple) else a
        s = norm_seq(self.read_seq(a))
        if isinstance(n, int):
            if n <= 0:
                return ListVal(Ex([]), a.kind)
            if isinstance(s, Ex):
                r = Ex(s.elems * n)
                return ListVal(r, a.kind) if a.kind == "list" else tuple(r.elems)
            if n == 1:
                return ListVal(s, a.kind)
        if isinstance(s, Ex) and len(s.elems) == 1:
            x = s.elems[0]
            i = self.fresh()
            nn = zint(n)
            if not self.entails(nn >= 0):
                nn = z3.If(nn > 0, nn, z3.IntVal(0))
            return ListVal(Tab(nn, i, x, shared=isinstance(x, (ListVal, DictVal, ObjVal))), a.kind)
        raise Unsupported("list repetition")

    def set_op(self, op, a, b):
        if op == "-":
            return SetVal(self.filter_seq(a.seq, lambda x: z3.Not(self.seq_any(b.seq, lambda y: self.eq_cond(x, y)))))
        if op == "&":
            return SetVal(self.filter_seq(a.seq, lambda x: self.seq_any(b.seq, lambda y: self.eq_cond(x, y))))
        return SetVal(norm_seq(Cat([a.seq, b.seq])))

    def filter_seq(self, s, cond):
        s = norm_seq(s)
        if isinstance(s, Ex):
            out = []
            for x in s.elems:
                if self.branch(cond(x)):
                    out.append(x)
            return Ex(out)
        if isinstance(s, Tab):
            return norm_seq(Comp([("r", s.i, s.n)], simp(cond(s.body)), s.body))
        if isinstance(s, Comp):
            return Comp(s.gens, simp(z3.And(s.cond, cond(s.body))), s.body)
        if isinstance(s, Cat):
            return norm_seq(Cat([self.filter_seq(p, cond) for p in s.parts]))
        raise Unsupported("filter")

    def seq_any(self, s, cond):
        """z3 condition: some element satisfies cond (a function value -> z3 Bool)."""
        s = norm_seq(s)
        if isinstance(s, Ex):
            return simp(z3.Or([cond(x) for x in s.elems] or [z3.BoolVal(False)]))
        if isinstance(s, Tab):
            return mk_any(s.n, s.i, cond(s.body))
        if isinstance(s, Comp):
            c = z3.And(s.cond, cond(s.body))
            for g in reversed(s.gens):
                c = mk_any(g[2], g[1], c) if g[0] == "r" else mk_kany(g[1], g[2], c)
            return c
        if isinstance(s, Cat):
            return z3.Or([self.seq_any(p, cond) for p in s.parts])
        if isinstance(s, StateSeq):
            raise NeedName(None, s.token)
        raise Unsupported("any over %r" % (s,))

    # ------------------------------------------------------------ comparison
    def eq_cond(self, a, b):
        """z3 condition of Python's a == b."""
        if isinstance(a, Choice):
            return z3.If(a.cond, self.eq_cond(a.a, b), self.eq_cond(a.b, b))
        if isinstance(b, Choice):
            return z3.If(b.cond, self.eq_cond(a, b.a), self.eq_cond(a, b.b))
        if isinstance(a, NpS):
            a = a.v
        if isinstance(b, NpS):
            b = b.v
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SObj) and x.tag in ANY:
                if y is None:
                    return self.is_none(x)
                raise Unsupported("comparison of any value")
        if native(a) and native(b):
            return z3.BoolVal(a == b)
        if is_num(a) and is_num(b):
            ka, kb = fkind(a), fkind(b)
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return zbool(a) == zbool(b)
            if ka is None and kb is None:
                if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
                    return logic.count_eq(zint(a), zint(b))
                return zreal(a) == zreal(b)
            ka, kb = zkind(a), zkind(b)
            return z3.And(ka == kb, ka != NAN, z3.Or(ka != FIN, zreal(a) == zreal(b)))
        strs = (str, SStr, SObj)
        if isinstance(a, strs) and isinstance(b, strs):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SStr) and isinstance(y, (str, SStr)):
                    # different literal beginnings or ends
                    u, v = x.parts[0], y if isinstance(y, str) else y.parts[0]
                    if isinstance(u, str) and isinstance(v, str) and not u.startswith(v[:len(u)]):
                        return z3.BoolVal(False)
                    u, v = x.parts[-1], y if isinstance(y, str) else y.parts[-1]
                    if isinstance(u, str) and isinstance(v, str) and not u.endswith(v[-len(u):]):
                        return z3.BoolVal(False)
            return zobj(a) == zobj(b)
        if isinstance(a, SObj) or isinstance(b, SObj):
            x, y = (a, b) if isinstance(a, SObj) else (b, a)
            if y is None or isinstance(y, (ListVal, DictVal, ClassVal, ObjVal, FuncVal)):
                return z3.BoolVal(False)
            if x.tag == "str" and is_num(y):
                return z3.BoolVal(False)
            if x.tag in ("label", "obj"):
                return zobj(x) == zobj(y)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return z3.BoolVal(False)
            return z3.And([self.eq_cond(x, y) for x, y in zip(a, b)] or [z3.BoolVal(True)])
        if isinstance(a, ListVal) and isinstance(b, ListVal):
            if a.kind != b.kind:
                return z3.BoolVal(False)
            sa, sb = norm_seq(self.read_seq(a)), norm_seq(self.read_seq(b))
            na, nb = seq_len(sa), seq_len(sb)
            if const(simp(na)) is not None and const(simp(nb)) is not None and isinstance(sa, Ex) and isinstance(sb, Ex):
                if len(sa.elems) != len(sb.elems):
                    return z3.BoolVal(False)
                return z3.And([self.eq_cond(x, y) for x, y in zip(sa.elems, sb.elems)] or [z3.BoolVal(True)])
            i = self.fresh()
            x, y = seq_at(sa, i), seq_at(sb, i)
            return z3.And(na == nb, z3.Not(mk_any(na, i, z3.Not(self.eq_cond(x, y)))))
        if isinstance(a, (type, ClassVal)) or isinstance(b, (type, ClassVal)):
            return z3.BoolVal(a is b)
        if a is b:
            return z3.BoolVal(True)
        if a is None or b is None:
            return z3.BoolVal(False)
        ta, tb = type(a), type(b)
        if isinstance(a, ObjVal) and a.stub is not None and hasattr(a.stub, "eq"):
            return a.stub.eq(self, a, b)
        if ta is not tb:
            if isinstance(a, (ObjVal, ListVal, DictVal, tuple, str, SStr)) and (isinstance(b, (ObjVal, ListVal, DictVal, tuple, str, SStr)) or is_num(b)):
                return z3.BoolVal(False)
            if is_num(a) and isinstance(b, (str, SStr, ListVal, DictVal, ObjVal, tuple)):
                return z3.BoolVal(False)
        if isinstance(a, ObjVal) and isinstance(b, ObjVal):
            return z3.BoolVal(a is b)
        raise Unsupported("== of %r and %r" % (a, b))

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = self.is_same(a, b)
            return r if t is ast.Is else not r
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if t is ast.In else not r
            return mkbool(r if t is ast.In else z3.Not(r))
        if isinstance(a, ObjVal) and a.stub is not None and hasattr(a.stub, "compare"):
            return a.stub.compare(self, a, t.__name__, b)
        if t in (ast.Eq, ast.NotEq):
            if t is ast.Eq and isinstance(a, ObjVal) and isinstance(a.cls, ClassVal) and a.cls.lookup("__eq__") is not None:
                return self.call(a.cls.lookup("__eq__"), [a, b], {})
            c = self.eq_cond(a, b)
            return mkbool(c if t is ast.Eq else z3.Not(c))
        return self.order(t, a, b)

    def order(self, t, a, b):
        if isinstance(a, NpS):
            a = a.v
        if isinstance(b, NpS):
            b = b.v
        if native(a) and native(b):
            try:
                return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[t](a, b)
            except TypeError as ex:
                raise PyRaise(TypeError, ex.args)
        if is_num(a) and is_num(b):
            ka, kb = fkind(a), fkind(b)
            if ka is None and kb is None:
                if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
                    x, y = zint(a), zint(b)
                    if t in (ast.Lt, ast.GtE):
                        c = logic.count_lt(x, y)
                    else:
                        c = logic.count_lt(y, x)
                    if c is not None:
                        return mkbool(c if t in (ast.Lt, ast.Gt) else z3.Not(c))
                    for u, v, up in ((x, y, t in (ast.Gt, ast.GtE)), (y, x, t in (ast.Lt, ast.LtE))):
                        k = const(simp(v))  # u > k, u >= k and their negations
                        strict = t in (ast.Gt, ast.Lt)
                        if k is not None and k == (0 if up == strict else 1):
                            c = logic.count_pos(u)
                            if c is not None:
                                return mkbool(c if up else z3.Not(c))
                else:
                    x, y = zreal(a), zreal(b)
                return mkbool(x < y if t is ast.Lt else x <= y if t is ast.LtE else x > y if t is ast.Gt else x >= y)
            if t in (ast.Gt, ast.GtE):
                return self.order(ast.Lt if t is ast.Gt else ast.LtE, b, a)
            x, y = zreal(a), zreal(b)
            ka, kb = zkind(a), zkind(b)
            nonan = z3.And(ka != NAN, kb != NAN)
            lt = z3.Or(z3.And(ka == NINF, kb != NINF), z3.And(kb == PINF, ka != PINF),
                       z3.And(ka == FIN, kb == FIN, x < y))
            if t is ast.LtE:
                lt = z3.Or(lt, z3.And(ka == kb, z3.Or(ka != FIN, x == y)))
            return mkbool(z3.And(nonan, lt))
        if isinstance(a, ObjVal) and isinstance(a.cls, LibClass) and a.cls.name == "LooseVersion":
            x, y = a.attrs["v"], b.attrs["v"]
            return self.order(t, x, y)
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.branch(self.eq_cond(x, y)):
                    return self.order({ast.LtE: ast.Lt, ast.GtE: ast.Gt}.get(t, t), x, y)
            return self.order(t, len(a), len(b))
        if a is None or b is None or isinstance(a, (str, SStr, ListVal, DictVal)) != isinstance(b, (str, SStr, ListVal, DictVal)):
            if not isinstance(a, SObj) and not isinstance(b, SObj):
                raise PyRaise(TypeError, ("order",))
            if isinstance(a, SObj) and a.tag == "str" and (b is None or is_num(b)):
                raise PyRaise(TypeError, ("order",))
            if isinstance(b, SObj) and b.tag == "str" and (a is None or is_num(a)):
                raise PyRaise(TypeError, ("order",))
        raise Unsupported("order of %r and %r" % (a, b))

    def is_none(self, v):
        from .builtin import any_kind

        return any_kind(v) == 4 if v.tag != "number" else z3.BoolVal(False)

    def is_same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SObj) and x.tag in ANY:
                if y is None:
                    return self.branch(self.is_none(x))
                raise Unsupported("identity of any value")
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool, type, ClassVal)) or isinstance(b, (bool, type, ClassVal)):
            if isinstance(a, SBool) or isinstance(b, SBool):
                x, y = (a, b) if isinstance(a, SBool) else (b, a)
                if isinstance(y, bool):
                    return self.branch(x.e if y else z3.Not(x.e))
            return a is b
        if native(a) and native(b):
            return type(a) is type(b) and a == b
        if isinstance(a, (ListVal, DictVal, ObjVal, tuple, IterVal)) or isinstance(b, (ListVal, DictVal, ObjVal, tuple, IterVal)):
            if a is b:
                return True
            if isinstance(a, (ListVal, DictVal, ObjVal)) and isinstance(b, (ListVal, DictVal, ObjVal)):
                oa, ob = a.origin, b.origin
                if oa is not None and ob is not None and oa[0] is ob[0] and oa[1] == ob[1]:
                    return self.branch(oa[2] == ob[2])
            return False
        if type(a) is not type(b):
            return False
        raise Unsupported("is")

    def contains(self, c, x):
        """x in c, as a bool or z3 condition."""
        if isinstance(c, (str, SStr)):
            if native(c) and native(x):
                if not isinstance(x, str):
                    raise PyRaise(TypeError, ("in str",))
                return x in c
            if isinstance(x, (SObj, SStr)) or isinstance(c, SStr):
                return z3.Function("str_contains", Obj, Obj, BOOL)(zobj(c), zobj(x))
            raise Unsupported("in str")
        if isinstance(c, SObj) and c.tag == "str":
            return z3.Function("str_contains", Obj, Obj, BOOL)(zobj(c), zobj(x))
        if isinstance(c, DictVal):
            return self.dict_has(c, x)
        if isinstance(c, tuple):
            return simp(z3.Or([self.eq_cond(y, x) for y in c] or [z3.BoolVal(False)]))
        if isinstance(c, ObjVal) and c.stub is not None and hasattr(c.stub, "contains"):
            return c.stub.contains(self, c, x)
        if isinstance(c, RangeVal) or isinstance(c, (ListVal, IterVal, SetVal, NdArr)):
            if isinstance(c, RangeVal) and c.step == 1 and isinstance(x, (int, SInt)):
                return z3.And(zint(x) >= zint(c.start), zint(x) < zint(c.stop))
            s = self.to_seq(c)
            if isinstance(x, (ListVal, DictVal)):
                raise Unsupported("list in list")
            return simp(self.seq_any(s, lambda y: self.eq_cond(y, x)))
        if is_num(c) or c is None:
            raise PyRaise(TypeError, ("in",))
        raise Unsupported("in %r" % (c,))

    # ------------------------------------------------------------ sequences
    def read_seq(self, v):
        s = v.seq
        if isinstance(s, Cat) and any(isinstance(p, StateSeq) for p in s.parts) or isinstance(s, StateSeq):
            st = s if isinstance(s, StateSeq) else [p for p in s.parts if isinstance(p, StateSeq)][0]
            raise NeedObj(v, ("read", st.token))
        return s

    def to_seq(self, v):
        """The sequence an iteration over v sees."""
        v = self.force(v)
        if isinstance(v, ListVal):
            s = norm_seq(self.read_seq(v))
            if isinstance(s, Tab) and not s.shared and isinstance(s.body, (ListVal, DictVal, ObjVal)) and s is v.seq:
                return Tab(s.n, s.i, self.elem(v, s.i, s.body))
            return s
        if isinstance(v, tuple):
            return Ex(list(v))
        if isinstance(v, IterVal):
            if v.used:
                return Ex([])
            s = v.seq
            if self.templates and v.serial <= self.templates[-1][0]:
                raise Unsupported("iterator consumed inside a loop it was made outside of")
            if v.serial <= self.mark:
                self.log.append(("attr", v, "used", False))
            v.used = True
            return norm_seq(s)
        if isinstance(v, RangeVal):
            return self.range_seq(v)
        if isinstance(v, DictVal):
            return self.dict_keys(v)
        if isinstance(v, SetVal):
            return v.seq
        if isinstance(v, NdArr):
            return self.to_seq(v.lst)
        if isinstance(v, (str, bytes)):
            return Ex([v[k:k + 1] if isinstance(v, str) else v[k] for k in range(len(v))])
        if isinstance(v, ObjVal):
            if v.stub is not None and hasattr(v.stub, "iter"):
                return v.stub.iter(self, v)
            it = v.cls.lookup("__iter__") if isinstance(v.cls, ClassVal) else None
            if it is not None:
                return self.to_seq(self.call(it, [v], {}))
        if isinstance(v, SObj) and v.tag == "str":
            n = str_len(v.e)
            i = self.fresh()
            return Tab(n, i, SObj(z3.Function("str_slice", Obj, INT, INT, Obj)(v.e, i, i + 1), "str"))
        if is_num(v) or v is None or isinstance(v, (FuncVal, ClassVal, type)):
            raise PyRaise(TypeError, ("not iterable",))
        raise Unsupported("iteration over %r" % (v,))

    def range_seq(self, r):
        a, b, st = r.start, r.stop, r.step
        if all(isinstance(x, int) for x in (a, b, st)):
            if len(range(a, b, st)) > 5000:
                raise Unsupported("long concrete range")
            return Ex(list(range(a, b, st)))
        if not isinstance(st, int) or st == 0:
            raise Unsupported("range step")
        i = self.fresh()
        za, zb = zint(a), zint(b)
        if st == 1:
            n = simp(zb - za)
        elif st > 1:
            n = steps_of(simp(zb - za + (st - 1)), st)
        elif st == -1:
            n = simp(za - zb)
        else:
            raise Unsupported("range step")
        if not self.entails(n >= 0):
            n = simp(z3.If(n > 0, n, z3.IntVal(0)))
        return norm_seq(Tab(n, i, mkint(za + i * st)))

    def explicit(self, v, want=None):
        """The elements of v as a Python list (v must have a known length)."""
        s = self.to_seq(v)
        if isinstance(s, Ex):
            return list(s.elems)
        n = seq_len(s)
        if n is not None:
            c = const(simp(n))
            if c is None and want is not None:
                if not self.branch(n == want):
                    raise PyRaise(ValueError, ("unpack",))
                c = want
            if c is None:
                for k in range(0, 5):
                    if self.entails(n == k):
                        c = k
                        break
            if c is not None:
                return [seq_at(s, z3.IntVal(k)) for k in range(c)]
        raise Unsupported("a sequence of unknown length is unpacked")

    def length(self, v):
        v = self.force(v)
        if isinstance(v, (tuple, str, bytes)):
            return len(v)
        if isinstance(v, NdArr):
            return self.length(v.lst)
        if isinstance(v, ListVal):
            ln = v.cls.lookup("__len__") if v.cls is not None else None
            if ln is not None:
                return self.call(ln, [v], {})
            n = seq_len(norm_seq(self.read_seq(v)))
            if n is None:
                raise Unsupported("len of %r" % (v,))
            return mkint(n)
        if isinstance(v, DictVal):
            if isinstance(v.map, CMap):
                return len(v.map.d)
            m = v.map
            return mkint(mk_ksum(m.k, m.has, z3.IntVal(1)))
        if isinstance(v, SetVal):
            s = norm_seq(v.seq)
            if isinstance(s, Ex) and len(s.elems) <= 1:
                return len(s.elems)
            if isinstance(s, Ex) and all(native(x) for x in s.elems):
                return len(set(s.elems))
            # only emptiness is known
            t = mk_agg("card", INT, [], [z3.BoolVal(True)], extra=[reify_seq_any(s)])
            e = self.seq_any(s, lambda x: z3.BoolVal(True))
            return SInt(z3.If(e, t, 0))  # t >= 1, see agg_base
        if isinstance(v, RangeVal):
            s = self.range_seq(v)
            return mkint(seq_len(s))
        if isinstance(v, ObjVal):
            ln = v.cls.lookup("__len__") if isinstance(v.cls, ClassVal) else None
            if ln is not None:
                return self.call(ln, [v], {})
            if v.stub is not None and hasattr(v.stub, "length"):
                return v.stub.length(self, v)
        if isinstance(v, SObj) and v.tag == "str":
            return SInt(str_len(v.e))
        if isinstance(v, SStr):
            total = z3.IntVal(0)
            for p in v.parts:
                if isinstance(p, str):
                    total = total + len(p)
                else:
                    total = total + str_len(p)
            return mkint(total)
        if is_num(v) or v is None:
            raise PyRaise(TypeError, ("len",))
        raise Unsupported("len of %r" % (v,))

    def elem(self, parent, idx_e, x):
        """Wrap the element x of the list parent at z3 index idx_e (identity, origin)."""
        if isinstance(x, (ListVal, DictVal, ObjVal)) and x.origin is not None and x.origin[0] is not parent:
            # an element of another list: reading is fine, changing it is not tracked
            x = clone(x, x)
            x.origin = (x.origin[0], "alias", x.origin[2])
            return x
        if isinstance(x, (ListVal, DictVal, ObjVal)) and x.origin is None:
            s = parent.seq
            if isinstance(s, Tab) and not s.shared:
                key = (id(parent), id(s), simp(idx_e).get_id())
                hit = self.elem_cache.get(key)
                if hit is not None and hit[0] is s:
                    return hit[1]
                if x is s.body:
                    x = clone(x)
                x.origin = (parent, "seq", idx_e)
                logic.keep(simp(idx_e))
                self.elem_cache[key] = (s, x)
        return x

    def get_item(self, o, k):
        o, k = self.force(o), (self.force(k) if not isinstance(k, slice) else k)
        if isinstance(k, NpS):
            k = k.v
        if isinstance(o, NdArr):
            return self.get_item(o.lst, k)
        if isinstance(o, (ListVal, tuple)):
            if isinstance(o, ListVal) and o.cls is not None and o.cls.lookup("__getitem__") is not None:
                return self.call(o.cls.lookup("__getitem__"), [o, k], {})
            if isinstance(k, slice):
                return self.get_slice(o, k)
            if isinstance(k, (bool, SBool)):
                k = mkint(zint(k))
            if not isinstance(k, (int, SInt)):
                if isinstance(k, SObj):
                    raise Unsupported("opaque index")
                raise PyRaise(TypeError, ("list index",))
            if isinstance(o, tuple):
                if isinstance(k, int):
                    if not -len(o) <= k < len(o):
                        raise PyRaise(IndexError)
                    return o[k]
                o = ListVal(Ex(list(o)), "tuple")
            s = norm_seq(self.read_seq(o))
            return self.seq_get(o, s, k)
        if isinstance(o, DictVal):
            if isinstance(k, slice):
                raise PyRaise(TypeError)
            return self.dict_get(o, k)
        if isinstance(o, RangeVal) and isinstance(k, slice):
            return self.get_slice(ListVal(self.range_seq(o)), k)
        if isinstance(o, RangeVal):
            return self.seq_get(None, self.range_seq(o), k)
        if isinstance(o, (str, bytes)) and (isinstance(k, int) or isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step))):
            try:
                return o[k]
            except IndexError:
                raise PyRaise(IndexError)
        if isinstance(o, (SObj, SStr, str)) and (not isinstance(o, SObj) or o.tag == "str"):
            return self.str_slice(o, k)
        if isinstance(o, ObjVal):
            if o.stub is not None and hasattr(o.stub, "getitem"):
                return o.stub.getitem(self, o, k)
            m = o.cls.lookup("__getitem__") if isinstance(o.cls, ClassVal) else None
            if m is not None:
                return self.call(m, [o, k], {})
        if o is None or is_num(o) or isinstance(o, (IterVal, FuncVal, SetVal)):
            raise PyRaise(TypeError, ("not subscriptable",))
        raise Unsupported("subscript of %r" % (o,))

    def str_slice(self, o, k):
        e = zobj(o)
        if isinstance(o, SStr) and isinstance(k, slice) and isinstance(k.start, int) and k.start >= 0 and k.stop is None and k.step is None \
                and isinstance(o.parts[0], str) and len(o.parts[0]) >= k.start:
            return self.concat_str([o.parts[0][k.start:]] + [SObj(p, "str") if not isinstance(p, str) else p for p in o.parts[1:]])
        n = self.length(o)
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("string step")
            a = self.clip_index(k.start, n, 0)
            b = self.clip_index(k.stop, n, n)
            return SObj(z3.Function("str_slice", Obj, INT, INT, Obj)(e, zint(a), zint(b)), "str")
        kk = zint(k)
        if self.branch(z3.Or(kk >= zint(n), kk < -zint(n))):
            raise PyRaise(IndexError)
        if not self.entails(kk >= 0):
            kk = z3.If(kk < 0, kk + zint(n), kk)
        return SObj(z3.Function("str_slice", Obj, INT, INT, Obj)(e, kk, kk + 1), "str")

    def seq_get(self, parent, s, k):
        n = seq_len(s)
        if n is None:
            raise Unsupported("index into %r" % (s,))
        ke = zint(k)
        if isinstance(k, int) and k < 0:
            if self.branch(n < -k):
                raise PyRaise(IndexError)
            ke = simp(n + k)
        elif isinstance(k, int):
            if self.branch(n <= k):
                raise PyRaise(IndexError)
        else:
            if not self.entails(ke >= 0):
                if self.branch(ke < 0):
                    if self.branch(ke < -n):
                        raise PyRaise(IndexError)
                    ke = simp(ke + n)
            if self.branch(ke >= n):
                raise PyRaise(IndexError)
        c = const(ke)
        if isinstance(s, Ex) and c is None:
            # decide the position when it is fixed by the path
            if len(s.elems) == 1:
                c = 0
                ke = z3.IntVal(0)
        x = seq_at(s, ke)
        if x is None:
            raise Unsupported("index into %r" % (s,))
        if parent is not None:
            x = self.elem(parent, ke, x)
        return x

    def clip_index(self, x, n, default):
        """Python's clipping of a slice bound to [0, n]."""
        if x is None:
            return default
        if isinstance(x, int) and isinstance(n, int):
            if x < 0:
                x += n
            return max(0, min(x, n))
        xe, ne = zint(x), zint(n)
        if not self.entails(xe >= 0):
            xe = z3.If(xe < 0, xe + ne, xe)
            if not self.entails(xe >= 0):
                xe = z3.If(xe < 0, z3.IntVal(0), xe)
        if not self.entails(xe <= ne):
            xe = z3.If(xe > ne, ne, xe)
        return mkint(xe)

    def get_slice(self, o, k):
        if isinstance(o, tuple):
            if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return o[k]
            o = ListVal(Ex(list(o)), "tuple")
        s = norm_seq(self.read_seq(o))
        step = 1 if k.step is None else k.step
        if isinstance(s, Ex) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            r = s.elems[slice(k.start, k.stop, k.step)]
            return ListVal(Ex(r), o.kind)
        n = seq_len(s)
        if n is None:
            raise Unsupported("slice of %r" % (s,))
        if step == -1 and k.start is None and k.stop is None:
            i = self.fresh()
            return ListVal(norm_seq(Tab(n, i, seq_at(s, simp(n - 1 - i)))), o.kind)
        if step != 1:
            raise Unsupported("slice step")
        a = self.clip_index(k.start, mkint(n), 0)
        b = self.clip_index(k.stop, mkint(n), mkint(n))
        if isinstance(a, int) and a == 0 and zint(b).eq(simp(n)):
            return ListVal(s, o.kind)
        m = simp(zint(b) - zint(a))
        if not self.entails(m >= 0):
            m = simp(z3.If(m > 0, m, z3.IntVal(0)))
        i = self.fresh()
        x = seq_at(s, simp(zint(a) + i))
        if x is None:
            raise Unsupported("slice of %r" % (s,))
        return ListVal(norm_seq(Tab(m, i, x)), o.kind)

    def set_item(self, o, k, v):
        o, k = self.force(o), (self.force(k) if not isinstance(k, slice) else k)
        if isinstance(k, NpS):
            k = k.v
        if isinstance(o, DictVal):
            self.dict_set(o, k, v)
            return
        if isinstance(o, ListVal) and o.kind == "list":
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    self.set_field(o, "seq", self.to_seq(v))
                    return
                raise Unsupported("slice assignment")
            s = norm_seq(self.read_seq(o))
            n = seq_len(s)
            if n is None:
                raise Unsupported("item assignment")
            ke = zint(k)
            if not self.entails(z3.And(ke >= -n, ke < n)):
                if self.branch(z3.Or(ke < -n, ke >= n)):
                    raise PyRaise(IndexError)
            if not self.entails(ke >= 0):
                ke = simp(z3.If(ke < 0, ke + n, ke))
            c = const(simp(ke))
            if isinstance(s, Ex) and c is not None:
                el = list(s.elems)
                el[c] = v
                self.set_field(o, "seq", Ex(el))
                return
            if isinstance(s, Ex):
                el = [merge2(ke == j, v, x) for j, x in enumerate(s.elems)]
                self.set_field(o, "seq", Ex(el))
                return
            if isinstance(s, Tab):
                if s.shared:
                    s = Tab(s.n, s.i, s.body)
                self.set_field(o, "seq", Tab(s.n, s.i, merge2(s.i == ke, v, s.body)))
                return
            raise Unsupported("item assignment to %r" % (s,))
        if isinstance(o, ObjVal) and isinstance(o.cls, ClassVal):
            m = o.cls.lookup("__setitem__")
            if m is not None:
                self.call(m, [o, k, v], {})
                return
        if isinstance(o, (tuple, str)) or is_num(o) or o is None:
            raise PyRaise(TypeError, ("item assignment",))
        raise Unsupported("item assignment to %r" % (o,))

    def del_item(self, o, k):
        o, k = self.force(o), self.force(k)
        if isinstance(o, DictVal):
            m = o.map
            if isinstance(m, CMap) and native(k):
                if k not in m.d:
                    raise PyRaise(KeyError)
                d = dict(m.d)
                d.pop(k)
                self.set_field(o, "map", CMap(d))
                return
            m = to_smap(m)
            kt = self.key_term(k, m.k.sort())
            if not self.branch(z3.substitute(m.has, (m.k, kt))):
                raise PyRaise(KeyError)
            self.set_field(o, "map", self.norm_map(m.k, z3.And(m.has, m.k != kt), m.val, m.bound))
            return
        raise Unsupported("del")

    def list_append(self, o, v):
        s = o.seq
        if isinstance(s, Ex):
            ns = Ex(s.elems + [v])
        elif isinstance(s, Cat) and isinstance(s.parts[-1], Ex):
            ns = Cat(s.parts[:-1] + [Ex(s.parts[-1].elems + [v])])
        else:
            ns = Cat((s.parts if isinstance(s, Cat) else [s]) + [Ex([v])])
        self.set_field(o, "seq", ns)

    def list_extend(self, o, it):
        if isinstance(self.force(it), StateSeq):
            raise Unsupported("extend")
        t = self.to_seq(it)
        if isinstance(t, Ex):
            for x in t.elems:
                self.list_append(o, x)
            return
        s = o.seq
        parts = [p for p in (s.parts if isinstance(s, Cat) else [s]) if not (isinstance(p, Ex) and not p.elems)]
        self.set_field(o, "seq", Cat(parts + [t]) if parts else t)

    # ------------------------------------------------------------ dicts
    def key_term(self, k, sort):
        k = self.force(k)
        if isinstance(k, NpS):
            k = k.v
        if isinstance(k, (ListVal, DictVal, SetVal)):
            raise PyRaise(TypeError, ("unhashable",))
        if sort == INT:
            if isinstance(k, (int, SInt, SBool)):
                return zint(k)
            if isinstance(k, (str, SStr, SObj)) or k is None:
                return None
            if isinstance(k, (float, SFl)) and fkind(k) is None:
                return None if not native(k) or k != int(k) else z3.IntVal(int(k))
            raise Unsupported("key %r" % (k,))
        if sort == Obj:
            return zobj(k)
        raise Unsupported("key sort")

    def norm_map(self, k, has, val, bound=None):
        """Symbolic map with numeric values 0 where absent."""
        has = simp(has)
        val = norm_val(has, val)
        return SMap(k, has, val, bound)

    def dict_has(self, d, k):
        k = self.force(k)
        if isinstance(k, (ListVal, DictVal)):
            raise PyRaise(TypeError, ("unhashable",))
        m = d.map
        if isinstance(m, CMap):
            if native(k):
                if all(native(x) for x in m.d):
                    return k in m.d
            keys = list(m.d)
            if not keys:
                return False
            return simp(z3.Or([self.eq_cond(x, k) for x in keys] or [z3.BoolVal(False)]))
        t = self.key_term(k, m.k.sort())
        if t is None:
            return False
        return simp(z3.substitute(m.has, (m.k, t)))

    def dict_val(self, d, k):
        """Value at a key known to be present."""
        m = d.map
        if isinstance(m, CMap):
            if native(k) and k in m.d:
                return m.d[k]
            opts = [(self.eq_cond(x, k), v) for x, v in m.d.items()]
            return merge(opts)
        t = self.key_term(k, m.k.sort())
        return sub(m.val, [(m.k, t)])

    def dict_get(self, d, k):
        has = self.dict_has(d, k)
        if not self.branch(has):
            raise PyRaise(KeyError, (k,))
        v = self.dict_val(d, self.force(k))
        m = d.map
        if isinstance(v, (ListVal, DictVal)) and isinstance(m, SMap) and v.origin is None:
            v = clone(v)
            v.origin = (d, "map", self.key_term(k, m.k.sort()))
        return v

    def dict_set(self, d, k, v):
        k = self.force(k)
        if isinstance(k, NpS):
            k = k.v
        if isinstance(k, (ListVal, DictVal, SetVal)):
            raise PyRaise(TypeError, ("unhashable",))
        m = d.map
        if isinstance(m, CMap):
            if native(k):
                nd = dict(m.d)
                nd[k] = v
                self.set_field(d, "map", CMap(nd))
                return
            if not isinstance(k, (SInt, SBool, SObj, SStr, tuple, SFl)) and k is not None:
                nd = dict(m.d)
                nd[k] = v
                self.set_field(d, "map", CMap(nd))
                return
            if isinstance(k, tuple):
                raise Unsupported("symbolic tuple key")
            sort = INT if isinstance(k, (SInt, SBool)) else Obj
            if not m.d:
                kc = self.fresh(sort, "ix!k")
                t = self.key_term(k, sort)
                self.set_field(d, "map", self.norm_map(kc, kc == t, v))
                return
            m = to_smap(m, sort)
        t = self.key_term(k, m.k.sort())
        if t is None:
            raise Unsupported("mixed key types")
        c = m.k == t
        bound = m.bound
        if bound is not None and not self.entails(z3.And(t >= 0, t < bound)):
            bound = None
        # still 0 where absent
        self.set_field(d, "map", SMap(m.k, simp(z3.Or(c, m.has)), merge2(c, v, m.val), bound))

    def dict_keys(self, d):
        m = d.map
        if isinstance(m, CMap):
            return Ex(list(m.d))
        return Comp([("k", m.k, m.has)], z3.BoolVal(True), self.key_value(m))

    def key_value(self, m, t=None):
        t = m.k if t is None else t
        return SInt(t) if m.k.sort() == INT else SObj(t, "str")

    def dict_items(self, d):
        m = d.map
        if isinstance(m, CMap):
            return Ex([(k, v) for k, v in m.d.items()])
        k = self.fresh(m.k.sort(), "ix!k")
        pr = [(m.k, k)]
        return Comp([("k", k, z3.substitute(m.has, *pr))], z3.BoolVal(True), (self.key_value(m, k), sub(m.val, pr)))

    def dict_values(self, d):
        m = d.map
        if isinstance(m, CMap):
            return Ex(list(m.d.values()))
        k = self.fresh(m.k.sort(), "ix!k")
        pr = [(m.k, k)]
        return Comp([("k", k, z3.substitute(m.has, *pr))], z3.BoolVal(True), sub(m.val, pr))

    def dict_from_pairs(self, s):
        """dict(pairs)"""
        s = norm_seq(s)
        d = DictVal(CMap({}))
        if isinstance(s, Ex):
            for p in s.elems:
                k, v = self.explicit(p, 2)
                self.dict_set(d, k, v)
            return d
        parts = s.parts if isinstance(s, Cat) else [s]
        maps = []
        for p in parts:
            maps.append(self.map_from_part(p))
        r = maps[0]
        for m in maps[1:]:
            r = self.map_update(r, m)
        d.map = r
        return d

    def map_update(self, a, b):
        """Entries of b over those of a."""
        if isinstance(a, CMap) and isinstance(b, CMap):
            nd = dict(a.d)
            nd.update(b.d)
            return CMap(nd)
        if isinstance(a, CMap) and not a.d:
            return b
        if isinstance(b, CMap) and not b.d:
            return a
        sort = key_sort(a)
        sort = key_sort(b) if sort is None else sort
        x, y = to_smap(a, sort), to_smap(b, sort)
        if x.k.sort() != y.k.sort():
            raise Unsupported("dicts with different key types")
        pr = [(y.k, x.k)]
        hy = z3.substitute(y.has, *pr)
        bound = x.bound if x.bound is not None and y.bound is not None and x.bound.eq(y.bound) else None
        return self.norm_map(x.k, z3.Or(x.has, hy), merge2(hy, sub(y.val, pr), x.val), bound)

    def map_from_part(self, p):
        if isinstance(p, Ex):
            d = DictVal(CMap({}))
            for q in p.elems:
                k, v = self.explicit(q, 2)
                self.dict_set(d, k, v)
            return d.map
        if isinstance(p, Tab):
            p = Comp([("r", p.i, p.n)], z3.BoolVal(True), p.body)
        if not isinstance(p, Comp):
            raise Unsupported("dict of %r" % (p,))
        body = p.body
        if isinstance(body, ListVal):
            body = tuple(self.explicit(body, 2))
        if not (isinstance(body, tuple) and len(body) == 2):
            raise Unsupported("dict of %r" % (p,))
        kv, val = body
        if isinstance(kv, Choice):
            raise Unsupported("dict key choice")
        sort = INT if isinstance(kv, (int, SInt, SBool)) else Obj
        ke = zint(kv) if sort == INT else zobj(kv)
        k = self.fresh(sort, "ix!k")
        if len(p.gens) == 1 and p.gens[0][0] == "k":
            _, g, has = p.gens[0]
            if g.sort() == sort:
                # key is the loop key, possibly shifted
                if ke.eq(g):
                    pr = [(g, k)]
                    bound = None
                    return self.norm_map(k, z3.substitute(z3.And(has, p.cond), *pr), sub(val, pr))
                if sort == INT:
                    c = simp(ke - g)
                    if not logic.has_const([c], g):
                        pr = [(g, simp(k - c))]
                        return self.norm_map(k, z3.substitute(z3.And(has, p.cond), *pr), sub(val, pr))
        if len(p.gens) == 1 and p.gens[0][0] == "r":
            _, g, n = p.gens[0]
            c = simp(z3.And(p.cond, ke == k))
            if sort == INT:
                diff = simp(ke - g)
                if not logic.has_const([diff], g):
                    inv = simp(k - diff)
                    pr = [(g, inv)]
                    bound = n if const(diff) == 0 else None
                    return self.norm_map(k, z3.And(inv >= 0, inv < n, z3.substitute(p.cond, *pr)), sub(val, pr), bound)
            has = mk_any(n, g, c)
            last = logic.mk_where("last", n, g, c)
            return self.norm_map(k, has, sub(val, [(g, last)]))
        # several generators: the key may determine the position
        doms = [z3.And(g[1] >= 0, g[1] < g[2]) if g[0] == "r" else g[2] for g in p.gens]
        full, left, prs = simp(z3.And(*doms, p.cond, ke == k)), list(p.gens), []
        for g in reversed(p.gens):
            e = logic.solve_eq(logic.conjuncts(full), g[1])
            if e is not None:
                prs = [(x, simp(z3.substitute(t, (g[1], e)))) for x, t in prs] + [(g[1], e)]
                full = simp(z3.substitute(full, (g[1], e)))
                left.remove(g)
        if not left:
            return self.norm_map(k, full, sub(val, prs))
        if len(left) == 1 and left[0] is p.gens[0] and left[0][0] == "r":
            _, g, n = left[0]
            last = logic.mk_where("last", n, g, full)
            return self.norm_map(k, mk_any(n, g, full), sub(sub(val, prs), [(g, last)]))
        # the last writer wins
        cond = simp(z3.And(p.cond, ke == k))
        has = cond
        for g in reversed(p.gens):
            has = mk_any(g[2], g[1], has) if g[0] == "r" else mk_kany(g[1], g[2], has)
        from .seqs import leaves

        doms = [z3.And(g[1] >= 0, g[1] < g[2]) if g[0] == "r" else g[2] for g in p.gens]
        cc = z3.And(*doms, cond)
        if isinstance(val, (int, SInt)) and not isinstance(val, bool):
            w = mk_agg("lastw", INT, [g[1] for g in p.gens], [cc, z3.If(cc, zint(val), z3.IntVal(0))])
            return self.norm_map(k, has, SInt(w))
        if isinstance(val, (float, SFl)) and fkind(val) is None:
            w = mk_agg("lastw", REAL, [g[1] for g in p.gens], [cc, z3.If(cc, zreal(val), z3.RealVal(0))])
            return self.norm_map(k, has, SFl(w))
        raise Unsupported("dict from nested loops")

    # ------------------------------------------------------------ attributes
    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if e.cls is AttributeError:
                return False
            raise

    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, ObjVal):
            cls = o.cls
            if name == "__class__":
                return cls
            if name == "__dict__":
                return DictVal(CMap(o.attrs))
            if isinstance(cls, ClassVal):
                c = cls.lookup(name)
                if isinstance(c, PropertyVal):
                    return self.call(c.fget, [o], {})
                if isinstance(c, ObjVal) and isinstance(c.cls, ClassVal) and c.cls.lookup("__get__") is not None:
                    return self.call(c.cls.lookup("__get__"), [c, o, cls], {})
                if name in o.attrs:
                    return o.attrs[name]
                if c is not None or cls.defines(name):
                    return self.bind(c, o)
                g = cls.lookup("__getattr__")
                if g is not None:
                    return self.call(g, [o, name], {})
                if o.stub is not None and hasattr(o.stub, "attr"):
                    r = o.stub.attr(self, o, name)
                    if r is not NotImplemented:
                        return r
                raise PyRaise(AttributeError, (name,))
            if name in o.attrs:
                return o.attrs[name]
            if o.stub is not None and hasattr(o.stub, "attr"):
                r = o.stub.attr(self, o, name)
                if r is not NotImplemented:
                    return r
            if isinstance(cls, type) and issubclass(cls, BaseException):
                if name == "args":
                    return o.attrs.get("args", ())
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, ModuleVal):
            if name in o.ns:
                return o.ns[name]
            if self.find(o.name + "." + name):
                return self.load(o.name + "." + name)
            if o.name in self.stubs or self.find(o.name) is None:
                return Builtin(o.name + "." + name, _unsupported_call(o.name + "." + name))
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            if name == "__module__":
                return o.mod
            v = o.lookup(name)
            if v is None and not o.defines(name):
                if name == "__mro__":
                    return tuple(o.mro())
                raise PyRaise(AttributeError, (name,))
            if isinstance(v, StaticVal):
                return v.f
            return v
        if isinstance(o, LibClass):
            if name == "__name__":
                return o.name
            if name == "__module__":
                return "sklearn"
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, SuperVal):
            mro = self.class_of(o.self_).mro()
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if isinstance(c, ClassVal) and name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, PropertyVal):
                        return self.call(v.fget, [o.self_], {})
                    return self.bind(v, o.self_)
                if c is list and name == "__init__":
                    def init(ip, args, kw, me=o.self_):
                        if args:
                            ip.list_extend(me, args[0])
                    return Builtin("list.__init__", init)
                if c is list:
                    return self.method(o.self_, name)
            if name == "__init__":
                return Builtin("object.__init__", lambda ip, a, k: None)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, FuncVal):
            if name == "__name__":
                return o.attrs.get("__name__", o.name)
            if name in ("__doc__", "__module__", "__qualname__", "__dict__"):
                return o.attrs.get(name)
            if name in o.attrs:
                return o.attrs[name]
            if name == "__get__":
                return Builtin("__get__", lambda ip, a, k: BoundMethod(o, a[0]))
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, ListVal) and o.cls is not None:
            if name == "__class__":
                return o.cls
            c = o.cls.lookup(name)
            if isinstance(c, PropertyVal):
                return self.call(c.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if c is not None or o.cls.defines(name):
                return self.bind(c, o)
        if isinstance(o, BoundMethod):
            if name == "__name__":
                return self.getattr(o.func, name)
            if name == "__self__":
                return o.self_
        return self.method(o, name)

    def class_of(self, o):
        return o.cls

    def bind(self, c, o):
        if isinstance(c, FuncVal):
            return BoundMethod(c, o)
        if isinstance(c, StaticVal):
            return c.f
        if isinstance(c, Builtin) and c.name.startswith("method:"):
            return BoundMethod(c, o)
        return c

    def method(self, o, name):
        from .builtin import method

        return method(self, o, name)

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, ObjVal):
            if isinstance(o.cls, ClassVal):
                c = o.cls.lookup(name)
                if isinstance(c, PropertyVal):
                    raise PyRaise(AttributeError, ("can't set attribute",))
            self.check_mutation(o)
            self.set_key(o.attrs, name, v, o)
            self.write_back_obj(o)
            return
        if isinstance(o, ListVal) and o.cls is not None:
            self.check_mutation(o)
            self.set_key(o.attrs, name, v, o)
            return
        if isinstance(o, FuncVal):
            self.set_key(o.attrs, name, v, o)
            return
        if isinstance(o, (ModuleVal,)):
            self.set_key(o.ns, name, v)
            return
        if isinstance(o, ClassVal):
            self.set_key(o.ns, name, v)
            return
        raise PyRaise(AttributeError, (name,))

    def write_back_obj(self, o):
        if o.origin is not None:
            raise Unsupported("attribute assignment on an element of a symbolic list")

    # ------------------------------------------------------------ misc
    def format_percent(self, fmt, args):
        args = self.force(args)
        if not isinstance(args, tuple):
            args = (args,)
        args = [self.force(a) for a in args]
        if native(fmt) and all(native(a) for a in args):
            try:
                return fmt % tuple(args)
            except (TypeError, ValueError) as ex:
                raise PyRaise(type(ex), ex.args)
        if isinstance(fmt, SStr):
            raise Unsupported("symbolic format")
        import re

        pieces = re.split(r"%(?:\.\d+)?([sdrfi%])", fmt)
        out, ai = [pieces[0]], 0
        for k in range(1, len(pieces), 2):
            c = pieces[k]
            if c == "%":
                out.append("%")
            else:
                if ai >= len(args):
                    raise PyRaise(TypeError, ("format",))
                a = args[ai]
                ai += 1
                if c == "s":
                    out.append(self.to_str(a))
                elif native(a):
                    out.append(("%" + c) % a)
                else:
                    if c == "d" and (isinstance(a, (SObj, SStr, str, ListVal))):
                        raise PyRaise(TypeError, ("format",))
                    if c in "di" and isinstance(a, SInt):
                        out.append(self.to_str(a))
                        out.append(pieces[k + 1])
                        continue
                    out.append(SObj(self.fresh(Obj, "msg"), "str"))
            out.append(pieces[k + 1])
        if ai != len(args):
            raise PyRaise(TypeError, ("format",))
        return self.concat_str(out)


class _Missing:
    pass


_MISSING = _Missing()


def steps_of(x, st):
    """x // st, what divides taken out."""
    q, r = z3.IntVal(0), z3.IntVal(0)
    for t in x.children() if z3.is_add(x) else [x]:
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % st == 0:
            q = q + z3.Product([z3.IntVal(t.arg(0).as_long() // st)] + t.children()[1:])
        elif z3.is_int_value(t):
            q, r = q + t.as_long() // st, r + t.as_long() % st
        else:
            r = r + t
    return simp(q + simp(r) / st)


def log_div(a, b):
    if z3.is_rational_value(b):
        return a * z3.Q(b.denominator_as_long(), b.numerator_as_long()) if b.numerator_as_long() > 0 else a / b
    return a / b


def reify_seq_any(s):
    from .seqs import reify_seq

    return reify_seq(s, "set")


def clone(x, like=None):
    if isinstance(x, ListVal):
        r = ListVal(x.seq, x.kind, x.cls, dict(x.attrs), x.ident)
    elif isinstance(x, DictVal):
        r = DictVal(x.map, x.ident)
    elif isinstance(x, ObjVal):
        r = ObjVal(x.cls, dict(x.attrs), x.stub)
        r.ident = x.ident
    else:
        return x
    if like is not None:
        r.origin, r.serial = like.origin, like.serial
    return r


obj_copy = clone


def _has_yield(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def _unsupported_call(name):
    def f(ip, args, kw):
        raise Unsupported("library function %s" % name)

    return f
