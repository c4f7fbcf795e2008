"""Loops: unrolling of explicit sequences, and summaries of symbolic ones.

A summarised loop is analysed for an arbitrary iteration i from an arbitrary state; the
recurrences of its state are then solved in closed form (last value, sum, any, append,
update per key, or an uninterpreted fold with that body).  The closed form of a state is a
loop invariant: it is established by the initial value and preserved by the body by
construction of the recurrence; what the rest of the analysis uses of the loop is only
that invariant."""
import ast
import itertools

import z3

from . import interp as I
from . import logic
from .logic import LOG, has_const, mk_agg, mk_any, mk_kany, mk_ksum, mk_sum
from .seqs import leaves, merge, merge2, merge_map, norm_seq, same, seq_at, seq_len, sub, sub_seq, terms, to_smap, zobj
from .values import *
from .values import FIN


import os; DBG=os.environ.get('DBG')


class _Skip(V):
    def sub(self, pairs):
        return self

    def __repr__(self):
        return "SKIP"


SKIP = _Skip()
_tok = itertools.count()
TRUE = z3.BoolVal(True)


def conj(cs):
    cs = list(cs)
    return simp(z3.And(cs)) if cs else TRUE


def disj(cs):
    cs = list(cs)
    return simp(z3.Or(cs)) if cs else z3.BoolVal(False)


def either_path(conds):
    """Disjunction of the conditions of several paths; two paths that differ only in the
    side taken at one branch become one."""
    ps = [{c.get_id(): c for c in cs} for cs in conds]
    logic.keep(*[c for p in ps for c in p.values()])
    changed = len(ps) <= 64
    while changed:
        changed = False
        for a, b in itertools.combinations(ps, 2):
            x, y = [k for k in a if k not in b], [k for k in b if k not in a]
            if not x or not y or len(x) == len(y) == 1 and simp(z3.Not(a[x[0]])).eq(simp(b[y[0]])):
                ps = [p for p in ps if p is not a and p is not b] + [{k: c for k, c in a.items() if k in b}]
                changed = True
                break
    return disj(conj(p.values()) for p in ps)


def domains(gens):
    return [z3.And(g[1] >= 0, g[1] < g[2]) if g[0] == "r" else g[2] for g in gens]


def close_any(gens, c):
    for g in reversed(gens):
        c = mk_any(g[2], g[1], c) if g[0] == "r" else mk_kany(g[1], g[2], c)
    return c


# ------------------------------------------------------------------ mapping
def bounded(ip, n):
    """A small bound on the length of a range that ends at a minimum (min(4, n) say)."""
    if n is None or not any(z3.is_app_of(t, z3.Z3_OP_ITE) for t in logic.subterms([simp(n)]).values()):
        return None
    for k in (2, 4):
        if ip.entails(n <= k):
            return k
    return None


def part_view(ip, s):
    """(gens, cond, body) of a symbolic part, with fresh bound constants."""
    if isinstance(s, Tab):
        i = ip.fresh()
        return [("r", i, s.n)], TRUE, sub(s.body, [(s.i, i)])
    if isinstance(s, Comp):
        pairs, gens = [], []
        for g in s.gens:
            c = ip.fresh(g[1].sort(), "ix!c" if g[1].sort() != INT else "ix")
            gens.append((g[0], c, z3.substitute(g[2], *(pairs + [(g[1], c)]))))
            pairs.append((g[1], c))
        return gens, simp(z3.substitute(s.cond, *pairs)), sub(s.body, pairs)
    raise Unsupported("iteration over %r" % (s,))


def run_body(ip, gens, cond, thunk):
    tok = next(_tok)
    try:
        return ip.explore(thunk, assume=[c for c in domains(gens) + [cond] if not z3.is_true(c)], template=(last_serial(), set(), tok))
    except I.NeedObj as e:
        if e.token == tok:
            if DBG: print("NEED", vars(e), type(e.obj), e.obj)
            raise Unsupported("side effect inside an expression")
        raise


def handle_raises(ip, gens, cond, outs, rerun):
    """Forks off the case where some element raises."""
    raises = [o for o in outs if o.kind == "raise"]
    if not raises:
        return
    g = either_path(o.conds for o in raises)
    if ip.branch(close_any(gens, simp(z3.And(cond, g)))):
        classes = {o.value.name for o in raises}
        if len(classes) == 1:
            raise I.PyRaise(raises[0].value.cls)
        if len(gens) == 1 and gens[0][0] == "r":
            t = logic.mk_where("first", gens[0][2], gens[0][1], simp(z3.And(cond, g)))
            for o in raises:
                c = z3.substitute(conj(o.conds), (gens[0][1], t))
                if ip.branch(c):
                    raise I.PyRaise(o.value.cls)
        raise Unsupported("several kinds of exceptions in one expression")


def map_seq(ip, s, fn):
    """The sequence of fn(x) for x in s; fn may return SKIP."""
    s = norm_seq(s)
    if isinstance(s, Ex):
        out = []
        for x in s.elems:
            y = fn(x)
            if y is not SKIP:
                out.append(y)
        return Ex(out)
    if isinstance(s, Cat):
        return norm_seq(Cat([map_seq(ip, p, fn) for p in s.parts]))
    if isinstance(s, StateSeq):
        raise I.NeedObj(None, ("read", s.token))
    if const(simp(s.n)) == 0 if isinstance(s, Tab) else False:
        return Ex([])
    gens, cond, body = part_view(ip, s)
    outs = run_body(ip, gens, cond, lambda: fn(body))
    handle_raises(ip, gens, cond, outs, None)
    oks = [o for o in outs if o.kind == "ok" and o.value is not SKIP]
    skips = [o for o in outs if o.kind == "ok" and o.value is SKIP]
    if not oks:
        return Ex([])
    val = merge([(conj(o.conds), o.value) for o in oks])
    c = cond
    if skips:
        c = simp(z3.And(cond, either_path(o.conds for o in oks)))
    if len(gens) == 1 and gens[0][0] == "r" and z3.is_true(c):
        return norm_seq(Tab(gens[0][2], gens[0][1], val))
    return Comp(gens, c, val)


def inner_gens(ip, s):
    """Generators of a sequence nested in another."""
    s = norm_seq(s)
    if isinstance(s, Ex):
        if len(s.elems) == 1:
            return [], TRUE, s.elems[0]
        j = ip.fresh()
        return [("r", j, z3.IntVal(len(s.elems)))], TRUE, seq_at(s, j)
    if isinstance(s, Cat):
        n = seq_len(s)
        j = ip.fresh()
        x = None if n is None else seq_at(s, j)
        if x is None:
            raise Unsupported("nested sequence %r" % (s,))
        return [("r", j, n)], TRUE, x
    return part_view(ip, s)


def flat_map(ip, s, fn):
    """Concatenation of the sequences fn(x)."""
    s = norm_seq(s)
    if isinstance(s, Ex):
        return norm_seq(Cat([fn(x) for x in s.elems]))
    if isinstance(s, Cat):
        return norm_seq(Cat([flat_map(ip, p, fn) for p in s.parts]))
    if isinstance(s, StateSeq):
        raise I.NeedObj(None, ("read", s.token))
    k = bounded(ip, seq_len(s) if isinstance(s, Tab) else None)
    if k is not None:
        out = []
        for j in range(k):
            if not ip.branch(s.n > j):
                break
            out.append(fn(seq_at(s, z3.IntVal(j))))
        return norm_seq(Cat(out))
    gens, cond, body = part_view(ip, s)
    outs = run_body(ip, gens, cond, lambda: fn(body))
    handle_raises(ip, gens, cond, outs, None)
    return flatten_outs(ip, gens, cond, outs)


def flatten_outs(ip, gens, cond, outs):
    oks = [(conj(o.conds), norm_seq(o.value), o.conds) for o in outs if o.kind == "ok"]
    alln = len(oks)
    oks = [(g, v, cs) for g, v, cs in oks if not (isinstance(v, Ex) and not v.elems)]
    if not oks:
        return Ex([])
    some = either_path(cs for _, _, cs in oks)
    oks = [(g, v) for g, v, cs in oks]
    if all(isinstance(v, Ex) and len(v.elems) == 1 for _, v in oks):
        val = merge([(g, v.elems[0]) for g, v in oks])
        c = cond if len(oks) == alln else simp(z3.And(cond, some))
        if len(gens) == 1 and gens[0][0] == "r" and z3.is_true(c):
            return norm_seq(Tab(gens[0][2], gens[0][1], val))
        return Comp(gens, c, val)
    if len(oks) == 1:
        g, v = oks[0]
        ig, ic, ib = inner_gens(ip, v)
        c = cond if alln == 1 else simp(z3.And(cond, g))
        # the condition of an outer filter belongs to the inner domain as well
        return Comp(gens + ig, simp(z3.And(c, ic)), ib)
    # several shapes: as one sequence with a case-dependent length
    ns = [seq_len(v) for _, v in oks]
    if any(n is None for n in ns):
        raise Unsupported("nested sequences of different shapes")
    n = z3.IntVal(0)
    for (g, _), m in zip(reversed(oks), reversed(ns)):
        n = z3.If(g, m, n)
    j = ip.fresh()
    xs = [(z3.And(g, j < m), seq_at(v, j)) for (g, v), m in zip(oks, ns)]
    if any(x is None for _, x in xs):
        raise Unsupported("nested sequences of different shapes")
    return Comp(gens + [("r", j, simp(n))], cond, merge(xs))


def reduce_seq(ip, f, s, init, has_init):
    s = norm_seq(s)
    if isinstance(s, Ex):
        el = list(s.elems)
        if not has_init:
            if not el:
                raise I.PyRaise(TypeError, ("reduce() of empty sequence",))
            init, el = el[0], el[1:]
        for x in el:
            init = ip.call(f, [init, x], {})
        return init
    if ip.branch(z3.Not(ip.seq_any(s, lambda x: TRUE))):
        if has_init:
            return init
        raise I.PyRaise(TypeError, ("reduce() of empty sequence",))
    if isinstance(f, I.Builtin) and f.name == "add":
        body = s.body if isinstance(s, (Tab, Comp)) else None
        if isinstance(body, (ListVal, tuple)):
            r = flat_map(ip, s, lambda x: ip.to_seq(x))
            if has_init:
                r = norm_seq(Cat([ip.to_seq(init), r]))
            return ListVal(r)
        if body is not None and is_num(body):
            from .builtin import num_sum

            return num_sum(ip, s, init if has_init else 0)
    raise Unsupported("reduce over a symbolic sequence")


# ------------------------------------------------------------------ comprehensions
def comprehension(ip, generators, env, elt):
    def rec(gs, e):
        """Sequence of the generators gs evaluated in e."""
        g, rest = gs[0], gs[1:]
        if g.is_async:
            raise Unsupported("async")
        s = ip.to_seq(ip.eval(g.iter, e))

        def fn(x):
            e2 = I.Env(e, e.mod, e.func)
            ip.assign(g.target, x, e2)
            for c in g.ifs:
                if not ip.truth(ip.eval(c, e2)):
                    return SKIP if not rest else Ex([])
            if rest:
                return rec(rest, e2)
            return elt(e2)

        return flat_map(ip, s, fn) if rest else map_seq(ip, s, fn)

    return rec(generators, I.Env(env, env.mod, env.func))


# ------------------------------------------------------------------ assigned names
def assigned_names(stmts):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name not in out:
                out.append(n.name)
            return
        if isinstance(n, (ast.Lambda,)):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    tgt(m.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    tgt(it.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            if n.name not in out:
                out.append(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in stmts:
        walk(s)
    return out


# ------------------------------------------------------------------ for loops
def for_loop(ip, node, env):
    it = ip.force(ip.eval(node.iter, env))
    s = norm_seq(ip.to_seq(it))

    def body(x):
        if isinstance(it, IterVal) and isinstance(x, IterVal):
            x = IterVal(x.seq)  # handed out once, so nobody has begun to read it
        ip.assign(node.target, x, env)
        ip.exec_block(node.body, env)

    names = assigned_names([node])
    try:
        run_for(ip, s, body, env, names)
    except I.BreakSig:
        return
    ip.exec_block(node.orelse, env)


def run_for(ip, s, body, env, names):
    if isinstance(s, Ex):
        for x in s.elems:
            try:
                body(x)
            except I.ContinueSig:
                pass
        return
    if isinstance(s, Cat):
        for p in s.parts:
            run_for(ip, p, body, env, names)
        return
    if isinstance(s, StateSeq):
        raise I.NeedObj(None, ("read", s.token))
    n = seq_len(s) if isinstance(s, Tab) else None
    if n is not None:
        c = const(simp(n))
        if c is not None and c <= 64:
            for k in range(c):
                try:
                    body(seq_at(s, z3.IntVal(k)))
                except I.ContinueSig:
                    pass
            return
    k = bounded(ip, n)
    if k is not None:
        for j in range(k):
            if not ip.branch(n > j):
                break
            try:
                body(seq_at(s, z3.IntVal(j)))
            except I.ContinueSig:
                pass
        return
    gens, cond, x = part_view(ip, s)
    Summary(ip, gens, cond, x, body, env, names).run()


class Cell:
    """One scalar of the loop state (or a table of scalars, with parameters ps)."""

    def __init__(self, const_, init, ps=()):
        self.c, self.init, self.ps = const_, init, ps  # c: z3 const standing for the state
        self.next = None
        self.summed = False
        self.closed = None  # function t -> z3 term


def st_const(sort, tag="s"):
    return z3.Const("st!%s%d" % (tag, next(_tok)), sort)


class Summary:
    def __init__(self, ip, gens, cond, x, body, env, names):
        self.ip, self.gens, self.cond, self.x, self.body, self.env = ip, gens, cond, x, body, env
        self.names = names
        self.token = next(_tok)
        self.state_names = []  # names that are loop state
        self.state_objs = []  # (kind) list/dict objects changed by the loop
        self.modes = {}  # id(obj) -> "append" | "table"
        self.promote = set()  # int states that become floats
        self.ordered = len(gens) == 1 and gens[0][0] == "r"
        self.frame_of = {}
        self.ranges = None  # name -> candidate bounds of an integer state, as functions of (state, i)
        self.optional, self.banned = set(), set()  # names tried as state because some iterations keep them

    # -------------------------------------------------------------- set up
    def owner(self, name):
        """Environment holding the variable."""
        e = self.env
        if name in e.globs:
            raise Unsupported("global loop variable")
        if name in e.nonloc:
            e = e.parent
            while e is not None and name not in e.vars:
                e = e.parent
            return e
        return e

    def run(self):
        ip = self.ip
        for _ in range(40):
            try:
                return self.attempt()
            except I.NeedName as e:
                if e.frame != self.token:
                    raise
                if e.name in self.state_names:
                    raise Unsupported("loop variable %s" % e.name)
                self.state_names.append(e.name)
            except I.NeedObj as e:
                if isinstance(e.token, tuple) and e.token[0] == "read":
                    hit = [o for o in self.state_objs if (self.token, id(o)) == e.token[1]]
                    if not hit:
                        # a state list bound to a name
                        hit2 = [n for n in self.state_names if (self.token, n) == e.token[1]]
                        if hit2 and self.modes.get(hit2[0]) != "table":
                            self.modes[hit2[0]] = "table"
                            continue
                        raise
                    if self.modes.get(id(hit[0])) == "table":
                        raise Unsupported("loop state list read")
                    self.modes[id(hit[0])] = "table"
                    continue
                if e.token != self.token:
                    raise
                if any(o is e.obj for o in self.state_objs):
                    raise Unsupported("loop state %r" % (e.obj,))
                if not isinstance(e.obj, (ListVal, DictVal, SetVal)):
                    raise Unsupported("attributes changed in a symbolic loop")
                self.state_objs.append(e.obj)
            except Relearn:
                pass
            except Unsupported:
                if not self.optional:
                    raise
                self.banned |= self.optional
                self.state_names = [n for n in self.state_names if n not in self.optional]
                self.optional = set()
            except Promote as e:
                if e.key in self.promote:
                    raise Unsupported("loop state changes its type")
                self.promote.add(e.key)
        raise Unsupported("loop analysis does not settle")

    # cells of a state value: returns (symbolic value, [Cell], rebuild(fn cell->term))
    def scalar(self, v, key, ps=()):
        v = self.ip.force(v) if isinstance(v, Choice) else v
        if isinstance(v, NpS):
            v = v.v
        if isinstance(v, (bool, SBool)):
            cell = Cell(st_const(BOOL), zbool(v), ps)
            return [cell], lambda f: mkbool(f(cell)), "b"
        if isinstance(v, (int, SInt)) and key not in self.promote:
            cell = Cell(st_const(INT), zint(v), ps)
            return [cell], lambda f: mkint(f(cell)), "i"
        if is_num(v):
            if fkind(v) is None and (key, "ext") not in self.promote:
                cell = Cell(st_const(REAL), zreal(v), ps)
                return [cell], lambda f: SFl(simp(f(cell))), "f"
            ck = Cell(st_const(INT, "k"), zkind(v), ps)
            cv = Cell(st_const(REAL), zreal(v), ps)
            return [ck, cv], lambda f: SFl(simp(f(cv)), simp(f(ck))), "x"
        if isinstance(v, (SObj, SStr, str)):
            tag = v.tag if isinstance(v, SObj) else "str"
            cell = Cell(st_const(Obj), zobj(v), ps)
            return [cell], lambda f: SObj(f(cell), tag), "o:" + tag
        if isinstance(v, tuple):
            subs = [self.scalar(x, (key, j), ps) for j, x in enumerate(v)]
            return ([c for s in subs for c in s[0]], lambda f: tuple(s[1](f) for s in subs), "(" + ",".join(s[2] for s in subs) + ")")
        raise Unsupported("loop state %r" % (v,))

    def match(self, tag, v, key):
        """Terms of a next value, in the order of the cells of its tag."""
        if isinstance(v, NpS):
            v = v.v
        if isinstance(v, Choice):
            a, b = self.match(tag, v.a, key), self.match(tag, v.b, key)
            return [simp(z3.If(v.cond, x, y)) for x, y in zip(a, b)]
        if tag == "b":
            if isinstance(v, (bool, SBool)):
                return [zbool(v)]
        elif tag == "i":
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                return [zint(v)]
            if isinstance(v, (float, SFl)):
                raise Promote(key)
        elif tag == "f":
            if is_num(v):
                if fkind(v) is not None:
                    raise Promote((key, "ext"))
                return [zreal(v)]
        elif tag == "x":
            if is_num(v):
                return [zkind(v), zreal(v)]
        elif tag.startswith("o:"):
            if isinstance(v, (SObj, SStr, str)):
                return [zobj(v)]
        elif tag.startswith("("):
            if isinstance(v, tuple):
                out, tags = [], split_tags(tag[1:-1])
                if len(tags) == len(v):
                    for j, (t, x) in enumerate(zip(tags, v)):
                        out += self.match(t, x, (key, j))
                    return out
        raise Unsupported("loop state changes its type (%s, %r)" % (tag, v))

    def attempt(self):
        ip = self.ip
        st = []  # state entries
        mark = last_serial()
        names0 = {}
        for nm in self.names:
            o = self.owner(nm)
            if o is None:
                raise Unsupported("nonlocal %s" % nm)
            names0[nm] = o.vars.get(nm, I._MISSING)
        for nm in self.state_names:
            v = names0[nm]
            if isinstance(v, I.Late):
                v = ip.lookup(self.owner(nm), nm)
            if isinstance(v, I.Poison):
                raise I.NeedName(v.token, v.name)
            if v is I._MISSING:
                raise Unsupported("loop variable %s may be unbound" % nm)
            st.append(self.entry(("name", nm), ip.force(v)))
        for o in self.state_objs:
            st.append(self.entry(("obj", o), o))
        allowed = set()
        for e in st:
            if e["key"][0] == "obj":
                allowed.add(id(e["key"][1]))

        def setup(valof):
            """Puts the state where the body finds it."""
            for nm in self.names:
                ip.set_key(self.owner(nm).vars, nm, I.Poison(nm, self.token), None)
            for e in st:
                val = valof(e)
                if e["key"][0] == "name":
                    ip.set_key(self.owner(e["key"][1]).vars, e["key"][1], val, None)
                    e["live"] = val
                else:
                    o = e["key"][1]
                    fld = "map" if isinstance(o, DictVal) else "seq"
                    ip.log.append(("attr", o, fld, getattr(o, fld)))
                    setattr(o, fld, getattr(val, fld))

        def capture(e):
            if e["key"][0] == "name":
                v = self.owner(e["key"][1]).vars[e["key"][1]]
                return snapshot(v)
            return snapshot(e["key"][1])

        def once():
            setup(lambda e: e["sym"]())
            end = "next"
            try:
                self.body(self.x)
            except I.ContinueSig:
                pass
            except I.BreakSig:
                end = "break"
            except I.ReturnSig:
                end = "return"
            finals = [capture(e) for e in st] if end == "next" else None
            others = {}
            if end == "next":
                for nm in self.names:
                    if nm not in self.state_names:
                        v = self.owner(nm).vars.get(nm, I._MISSING)
                        others[nm] = v if not isinstance(v, I.Poison) else None
            return end, finals, others

        doms = [c for c in domains(self.gens) + [self.cond] if not z3.is_true(c)]
        for e in st:
            doms += e.get("assume", [])
        var = self.gens[0][1]
        ints = {e["id"]: e["cells"][0] for e in st if e["kind"] == "scalar" and e["tag"] == "i"}
        for key, fs in (self.ranges or {}).items():
            if key in ints:
                doms += [f(ints[key].c, var) for f in fs]
        outs = ip.explore(once, assume=doms, template=(mark, allowed, self.token))
        nexts = [o for o in outs if o.kind == "ok" and o.value[0] == "next"]
        exits = [o for o in outs if not (o.kind == "ok" and o.value[0] == "next")]
        place = {e["id"]: k for k, e in enumerate(st)}
        ints = {key: c for key, c in ints.items()  # sums have closed forms
                if (self.ranges or {}).get(key) or any(has_const([simp(self.match("i", o.value[1][place[key]], key)[0] - c.c)], c.c) for o in nexts)}
        if self.ordered and ints and any(o.kind == "raise" for o in exits) and self.ranges is None:
            # an index kept between iterations: try bounds that every iteration keeps
            known = ip.pc
            self.ranges = {}
            for key, c in ints.items():
                self.ranges[key] = [f for f in (lambda s, i: s >= 0, lambda s, i: s <= i, lambda s, i: s <= i + 1)
                                    if logic.entails(known, f(c.init, z3.IntVal(0)))][:2]
            raise Relearn()
        for e in st:
            fs = (self.ranges or {}).get(e["id"])
            if fs and e["id"] in ints:
                c = ints[e["id"]]
                kept = [f for f in fs if all(logic.entails(ip.pc + doms + list(o.conds), f(self.match("i", o.value[1][st.index(e)], e["id"])[0], var + 1)) for o in nexts)
                        and logic.entails(ip.pc + doms, f(c.c, var + 1))]
                if len(kept) < len(fs):
                    self.ranges[e["id"]] = kept
                    raise Relearn()
        # names that some iterations assign and others keep
        for nm in self.names:
            if nm in self.state_names or nm in self.banned or names0[nm] is I._MISSING or isinstance(names0[nm], I.Poison):
                continue
            if isinstance(names0[nm], I.Late) and names0[nm].loose:
                continue
            kept = [o.value[2].get(nm) is None for o in nexts]
            if any(kept) and not all(kept):
                self.state_names.append(nm)
                self.optional.add(nm)
                raise Relearn()
        # recurrences
        for k, e in enumerate(st):
            e["outs"] = [(conj(o.conds), o.value[1][k]) for o in nexts]
        learning = [e for e in st if e["kind"] == "learn"]
        for e in learning:
            hint = "unused"
            for _, d in e["outs"]:
                if not isinstance(d, DictVal):
                    raise Unsupported("loop state dict")
                m = d.map
                if isinstance(m, CMap):
                    if not m.d:
                        continue
                    m = to_smap(m)
                x = m.val
                hint = (m.k.sort(), x)
                break
            self.modes[("dict", e["id"])] = hint
        if learning:
            raise Relearn()
        for e in st:
            if e["kind"] == "const" and any(not (isinstance(d.map, CMap) and not d.map.d) for _, d in e["outs"]):
                raise Unsupported("dict filled late in a loop")
        exit_guard = either_path(o.conds for o in exits)
        self.solve(st)
        i = self.gens[0][1]
        subs_at = self.subs_all(st, i)
        if exits:
            eg = self.fix(exit_guard, subs_at, st)
            if ip.branch(close_any(self.gens, simp(z3.And(self.cond, eg)))):
                self.exit_path(st, exits, eg, setup)
                return
        # after the loop
        n = self.gens[0][2] if self.ordered else None
        self.finish(st, n, setup)
        last_vals = self.others(nexts, st, subs_at)
        for nm in self.names:
            if nm in self.state_names:
                continue
            o = self.owner(nm)
            old = names0[nm]
            if nexts and all(x.value[2].get(nm) is None for x in nexts):
                ip.set_key(o.vars, nm, old, o)  # no iteration assigns it
                continue
            ip.set_key(o.vars, nm, I.Late(self.late(nm, last_vals.get(nm), old), old is I._MISSING or isinstance(old, I.Poison) or isinstance(old, I.Late) and old.loose), o)

    def late(self, nm, v, old):
        def fn():
            ip = self.ip
            if v is None or not self.ordered or not z3.is_true(self.cond):
                if not ip.branch(close_any(self.gens, self.cond)):
                    if old is I._MISSING:
                        raise I.PyRaise(UnboundLocalError, (nm,))
                    return old.fn() if isinstance(old, I.Late) else old
                raise Unsupported("value of %s after a loop" % nm)
            n = self.gens[0][2]
            if ip.branch(n > 0):
                return sub(v, [(self.gens[0][1], simp(n - 1))])
            if old is I._MISSING:
                raise I.PyRaise(UnboundLocalError, (nm,))
            if isinstance(old, I.Late):
                return old.fn()
            if isinstance(old, I.Poison):
                raise I.NeedName(old.token, old.name)
            return old

        return fn

    def others(self, nexts, st, subs_at):
        res = {}
        for nm in self.names:
            if nm in self.state_names:
                continue
            vals = [(conj(o.conds), o.value[2].get(nm)) for o in nexts]
            if any(v is None or v is I._MISSING for _, v in vals) or not vals:
                continue
            try:
                v = merge([(g, v) for g, v in vals])
                v = self.fix_val(v, subs_at, st)
            except Unsupported:
                continue
            res[nm] = v
        return res

    # -------------------------------------------------------------- state entries
    def entry(self, key, v):
        """How a state value is represented during the analysis of one iteration."""
        k = key[1] if key[0] == "name" else id(key[1])
        e = {"key": key, "init": v, "id": k}
        if isinstance(v, SetVal):
            e.update(kind="append", tok=(self.token, k), cells=[])
            e["sym"] = lambda: SetVal(StateSeq(e["tok"]))
            return e
        if isinstance(v, ListVal):
            mode = self.modes.get(k, "append")
            s = norm_seq(v.seq)
            if mode == "append":
                tok = (self.token, k)
                e["kind"] = "append"
                e["tok"] = tok
                e["sym"] = lambda: ListVal(StateSeq(tok), v.kind, v.cls, dict(v.attrs))
                e["cells"] = []
                return e
            # a list of fixed length whose elements change
            e["kind"] = "table"
            dims, body = [], v
            bvs = []
            path = []
            while isinstance(body, ListVal):
                bs = norm_seq(body.seq)
                if isinstance(bs, Ex):
                    if not bs.elems:
                        raise Unsupported("empty state list read")
                    j = self.ip.fresh()
                    bs = Tab(z3.IntVal(len(bs.elems)), j, seq_at(bs, j))
                if isinstance(bs, (Cat, Comp)):
                    j = self.ip.fresh()
                    nn, xx = seq_len(bs), seq_at(bs, j)
                    if nn is None or xx is None:
                        raise Unsupported("state list %r" % (bs,))
                    bs = Tab(nn, j, xx)
                p = self.ip.fresh()
                dims.append((simp(z3.substitute(bs.n, *zip_pairs(bvs))) if False else bs.n, p))
                path.append((body.kind, body.cls, dict(body.attrs), bs.shared))
                body = sub(bs.body, [(bs.i, p)])
            cells, rebuild, tag = self.scalar(body, k, tuple(p for _, p in dims))
            for c in cells:
                c.uf = z3.Function("st!t%d" % next(_tok), *[INT] * len(dims), c.c.sort())
                c.keep = body
            e.update(cells=cells, rebuild=rebuild, tag=tag, dims=dims, path=path)

            def build(f, at=0, idx=()):
                if at == len(dims):
                    return rebuild(lambda c: f(c, idx))
                j = self.ip.fresh()
                kind, cls, attrs, shared = path[at]
                nn = dims[at][0]
                prs = [(dims[b][1], idx[b]) for b in range(at)]
                nn = z3.substitute(nn, *prs) if prs else nn
                return ListVal(Tab(nn, j, build(f, at + 1, idx + (j,))), kind, cls, attrs)

            e["build"] = build
            e["sym"] = lambda: build(lambda c, idx: c.uf(*idx))
            return e
        if isinstance(v, DictVal):
            e["kind"] = "dict"
            m = v.map
            sort, val = None, None
            if isinstance(m, SMap):
                sort, val = m.k.sort(), m.val
            elif m.d:
                m2 = to_smap(m)
                sort, val, m = m2.k.sort(), m2.val, m2
            hint = self.modes.get(("dict", k))
            if sort is None:
                if hint is None:
                    # learn the key and value types from what the first iteration stores
                    e.update(cells=[], sym=lambda: DictVal(v.map), kind="learn")
                    return e
                if hint == "unused":
                    e.update(cells=[], sym=lambda: v, kind="const")
                    return e
                sort, val = hint
                kk = self.ip.fresh(sort, "ix!k")
                m = SMap(kk, z3.BoolVal(False), zero_like(val))
            p = self.ip.fresh(sort, "ix!k")
            init_has = z3.substitute(m.has, (m.k, p))
            init_val = sub(m.val, [(m.k, p)])
            hc = Cell(st_const(BOOL, "h"), init_has, (p,))
            if isinstance(init_val, (ListVal, DictVal)):
                raise Unsupported("dict of lists as loop state")
            vcells, rebuild, tag = self.scalar(init_val, k, (p,))
            for c in [hc] + vcells:
                c.uf = z3.Function("st!d%d" % next(_tok), sort, c.c.sort())
            e.update(cells=[hc] + vcells, hc=hc, rebuild=rebuild, tag=tag, p=p, sort=sort, bound=m.bound)

            def build(f, norm=True):
                kk = self.ip.fresh(sort, "ix!k")
                has = simp(f(hc, (kk,)))
                val = rebuild(lambda c: f(c, (kk,)))
                return DictVal(SMap(kk, has, self.ip_norm(has, val) if norm else val, e["bound"]))

            e["build"] = build
            # every step leaves the numbers 0 where the key is absent
            e["sym"] = lambda: build(lambda c, idx: c.uf(*idx), False)
            return e
        cells, rebuild, tag = self.scalar(v, k)
        e.update(kind="scalar", cells=cells, rebuild=rebuild, tag=tag)
        e["sym"] = lambda: rebuild(lambda c: c.c)
        return e

    def ip_norm(self, has, val):
        return val if not is_num(val) else I.norm_val(has, val)

    # -------------------------------------------------------------- solving
    def solve(self, st):
        i = self.gens[0][1]
        pend = []
        for e in st:
            if e["kind"] in ("append", "const"):
                continue
            cells = e["cells"]
            if e["kind"] == "scalar":
                rows = [(g, self.match(e["tag"], v, e["id"])) for g, v in e["outs"]]
            elif e["kind"] == "table":
                rows = []
                for g, v in e["outs"]:
                    x = v
                    for (nn, p), (kind, cls, attrs, sh) in zip(e["dims"], e["path"]):
                        if not isinstance(x, ListVal) or x.kind != kind:
                            raise Unsupported("loop state changes its shape")
                        xs = norm_seq(self.ip.read_seq(x))
                        n2 = seq_len(xs)
                        if n2 is None or not (n2.eq(nn) or logic.entails(self.ip.pc + domains(self.gens) + [self.cond, g], n2 == nn)):
                            raise Unsupported("loop state list changes its length")
                        x = seq_at(xs, p)
                        if x is None:
                            raise Unsupported("loop state list")
                    rows.append((g, self.match(e["tag"], x, e["id"])))
            else:  # dict
                rows = []
                p = e["p"]
                for g, v in e["outs"]:
                    m = v.map if isinstance(v, DictVal) else None
                    if m is None:
                        raise Unsupported("loop state dict")
                    m = to_smap(m, e["sort"])
                    if m.k.sort() != e["sort"]:
                        raise Unsupported("loop state dict")
                    has = z3.substitute(m.has, (m.k, p))
                    val = sub(m.val, [(m.k, p)])
                    rows.append((g, [has] + self.match(e["tag"], val, e["id"])))
                    if e["bound"] is not None and (m.bound is None or not m.bound.eq(e["bound"])):
                        e["bound"] = None
            ufs = {c.uf.name(): c for c in cells if hasattr(c, "uf")}
            for idx, c in enumerate(cells):
                t = rows[-1][1][idx]
                for g, ts in reversed(rows[:-1]):
                    t = z3.If(g, ts[idx], t)
                t = simp(t)
                if not z3.is_true(self.cond):
                    cur = c.uf(*c.ps) if hasattr(c, "uf") else c.c
                    t = simp(z3.If(self.cond, t, cur))
                c.next = t
                pend.append(c)
        # state tables: only the cell at its own parameters may be used
        tables = [e for e in st if e["kind"] in ("table", "dict")]
        for e in st:
            for c in e["cells"]:
                for e2 in tables:
                    if e2 is e:
                        c.next = self.localise(c.next, e2, c)
                # uses of other tables at other places are left to the solver order
        for e in tables:
            if e["kind"] == "dict":
                self.totals(e)
        self.order(pend, i, st)

    def totals(self, e):
        """`d[k] = d[k] + x if k in d else x` is a running total, the numbers being 0
        where the key is absent (shown to be kept)."""
        h = e["hc"]
        for c in e["cells"]:
            if c is h or c.c.sort() not in (INT, REAL) or not has_const([c.next], h.c):
                continue
            d = delta(simp(z3.substitute(c.next, (h.c, TRUE))), c.c)
            if d is None or has_const([d], h.c):
                continue
            inv = z3.Or(h.c, c.c == 0)
            if all(logic.solve(q, 1000) == "unsat" for q in (
                    [z3.Not(h.init), c.init != 0], [inv, z3.Not(h.next), c.next != 0], [inv, c.next != c.c + d])):
                c.next = simp(c.c + d)

    def localise(self, t, e, c):
        """Rewrites the table's applications at its parameters to the cell constants;
        other applications must be excluded by case analysis on the key."""
        ps = e["cells"][0].ps
        names = {x.uf.name(): x for x in e["cells"]}

        def apps(t):
            out = []
            for u in logic.subterms([t]).values():
                if z3.is_app(u) and u.decl().name() in names and u.num_args() == len(ps):
                    out.append(u)
            return out

        # the only index of a list of one element is this one
        if "dims" in e:
            single = [z3.is_int_value(nn) and nn.as_long() == 1 for nn, p in e["dims"]]
            if any(single):
                t = z3.substitute(t, *[(u, u.decl()(*[p if one else a for a, p, one in zip(u.children(), ps, single)])) for u in apps(t)])
        t = simp(z3.substitute(t, *[(x.uf(*ps), x.c) for x in e["cells"]]))
        for _ in range(6):
            rest = apps(t)
            if not rest:
                return t
            if len(ps) != 1:
                # nested lists: the indices that differ
                u = rest[0]
                diff = [(a, p) for a, p in zip(u.children(), ps) if not a.eq(p)]
                if len(diff) != 1:
                    if DBG: print("DIFF", ps, diff, len(rest))
                    raise Unsupported("loop state table read elsewhere")
                key, p = diff[0]
            else:
                key, p = rest[0].arg(0), ps[0]
            eqc = p == key
            # where p == key, read at p
            a = t
            for x in e["cells"]:
                repl = [(u, x.c) for u in apps(a) if u.decl().name() == x.uf.name() and all(
                    v.eq(q) or (v.eq(key) and q.eq(p)) for v, q in zip(u.children(), ps))]
                if repl:
                    a = z3.substitute(a, *repl)
            a = simp(assume_eq(a, eqc, True))
            b = simp(assume_eq(t, eqc, False))
            b2 = [u for u in apps(b) if any(v.eq(key) for v in u.children())]
            if b2:
                if DBG: print("B2", ps, b2, eqc, str(t)[:1500])
                raise Unsupported("loop state table read elsewhere")
            t = simp(z3.If(eqc, a, b))
        if DBG: print("ELSEWHERE", ps, [str(u)[:200] for u in apps(t)][:4])
        raise Unsupported("loop state table read elsewhere")

    def order(self, pend, i, st):
        """Solves the cells one by one, mutually dependent ones as a joint fold."""
        all_cells = self.all_cells = list(pend)
        ufnames = {c.uf.name() for c in all_cells if hasattr(c, "uf")}
        while pend:
            progress = False
            for c in list(pend):
                others = [d for d in pend if d is not c]
                if any(has_const([c.next], d.c) for d in others):
                    continue
                if uses_uf(c.next, {d.uf.name() for d in pend if hasattr(d, "uf")}):
                    continue
                f = self.closed_form(c, i)
                if f is None:
                    continue
                c.closed = f
                pend.remove(c)
                progress = True
                for d in pend:
                    d.next = self.plug(d.next, c, i)
            if progress:
                continue
            # a joint fold over everything that is left
            if not self.ordered:
                raise Unsupported("order-dependent loop over a dict or nested ranges")
            if any(hasattr(c, "uf") for c in pend):
                groups = {}
                for c in pend:
                    groups.setdefault(tuple(p.decl().name() for p in c.ps), []).append(c)
                if len(groups) > 1 or any(uses_uf(c.next, ufnames) for c in pend):
                    raise Unsupported("interdependent loop state tables")
            bvs = [i] + [c.c for c in pend]
            bodies = [c.next for c in pend]
            inits = [c.init for c in pend]
            for idx, c in enumerate(pend):
                def f(t, idx=idx, c=c):
                    return mk_agg("fold", c.c.sort(), bvs, bodies, n=t, extra=inits, aux=idx)
                c.closed = f
            pend = []

    def plug(self, t, c, i):
        """Replaces the solved cell (constant and table reads) by its closed form at i."""
        v = c.closed(i)
        t = z3.substitute(t, (c.c, v))
        if hasattr(c, "uf"):
            t = self.plug_uf(t, c, i)
        return simp(t)

    def plug_uf(self, t, c, i):
        for _ in range(8):
            us = [u for u in logic.subterms([t]).values() if z3.is_app(u) and u.decl().name() == c.uf.name()]
            if not us:
                return t
            us.sort(key=lambda u: len(logic.subterms([u])))
            u = us[0]
            t = z3.substitute(t, (u, z3.substitute(c.closed(i), *zip(c.ps, u.children()))))
        raise Unsupported("state table")

    def closed_form(self, c, i):
        nxt, s = c.next, c.c
        if nxt.eq(s):
            return lambda t: c.init
        if not self.ordered:
            return self.closed_unordered(c)
        n0 = const(simp(self.gens[0][2]))
        if not has_const([nxt], s):
            def last(t):
                at = z3.substitute(nxt, (i, simp(t - 1)))
                return simp(z3.If(t > 0, at, c.init))
            return last
        if s.sort() != BOOL and s.sort() != Obj:
            d = delta(nxt, s)
            if d is not None:
                c.summed = True
                return lambda t: simp(c.init + mk_sum(t, i, d))
        if s.sort() == BOOL:
            hi = simp(z3.substitute(nxt, (s, TRUE)))
            lo = simp(z3.substitute(nxt, (s, z3.BoolVal(False))))
            if z3.is_true(hi):
                return lambda t: simp(z3.Or(c.init, mk_any(t, i, lo)))
            if z3.is_false(lo):
                return lambda t: simp(z3.And(c.init, z3.Not(mk_any(t, i, z3.Not(hi)))))
        rec = self.argmax_form(c, nxt, s, i)
        if rec is not None:
            return rec
        ge = guarded(nxt, s)
        if ge is not None:
            g, v = ge
            rec = self.record_form(c, g, v, i)
            if rec is not None:
                return rec
            def lastg(t):
                L = logic.mk_where("last", t, i, g)
                return simp(z3.If(mk_any(t, i, g), z3.substitute(v, (i, L)), c.init))
            return lastg
        if s.sort() in (INT, REAL):
            mm = maxmin(nxt, s)
            if mm is not None:
                kind, v = mm
                if simp(z3.substitute(v, (i, z3.IntVal(-1)))).eq(simp(c.init)):
                    # the first value was taken before the loop
                    c.record = kind, simp(z3.substitute(v, (i, i - 1))), 1
                    return lambda t: mk_agg(kind, s.sort(), [i], [c.record[1]], n=simp(t + 1))
                c.record = kind, v, 0
                if simp(z3.substitute(v, (i, z3.IntVal(0)))).eq(simp(c.init)):
                    return lambda t: simp(z3.If(t > 0, mk_agg(kind, s.sort(), [i], [v], n=t), c.init))
                def ext(t):
                    m = mk_agg(kind, s.sort(), [i], [v], n=t)
                    better = m > c.init if kind == "max" else m < c.init
                    return simp(z3.If(z3.And(t > 0, better), m, c.init))
                return ext
        return lambda t: mk_agg("fold", s.sort(), [i, s], [nxt], n=t, extra=[c.init], aux=0)

    def record_form(self, c, g, v, i):
        """Where a running extremum changed last: at the first place of the extremum
        (the last one where equal values count)."""
        for d in self.all_cells:
            if getattr(d, "record", None) is None or c.ps or d.ps:
                continue
            kind, w, shift = d.record
            run = d.closed(i)
            now = simp(z3.substitute(w, (i, i + shift)))
            for strict in (True, False):
                e = (now > run if strict else now >= run) if kind == "max" else (now < run if strict else now <= run)
                if not simp(e).eq(simp(g)):
                    continue

                def at(t, d=d, strict=strict, w=w, shift=shift, kind=kind):
                    top = d.closed(t)
                    if shift and strict and simp(z3.substitute(v, (i, z3.IntVal(-1)))).eq(simp(c.init)):
                        pos = logic.mk_where("first", simp(t + 1), i, simp(w == top))
                        return simp(z3.substitute(v, (i, pos - 1)))
                    u = simp(z3.substitute(w, (i, i + shift)))
                    pos = logic.mk_where("first" if strict else "last", t, i, simp(u == top))
                    beat = (u > d.init if strict else u >= d.init) if kind == "max" else (u < d.init if strict else u <= d.init)
                    if strict and simp(z3.substitute(u, (i, z3.IntVal(0)))).eq(simp(d.init)) and simp(z3.substitute(v, (i, z3.IntVal(0)))).eq(simp(c.init)):
                        return simp(z3.If(t > 0, z3.substitute(v, (i, pos)), c.init))
                    return simp(z3.If(mk_any(t, i, simp(beat)), z3.substitute(v, (i, pos)), c.init))

                return at
        return None

    def argmax_form(self, c, nxt, s, i):
        """s = w(i) where f(w(i)) beats f(s), else s: the place of the extremum of f."""
        if s.sort() != INT or c.ps or not z3.is_app(nxt) or nxt.decl().kind() != z3.Z3_OP_ITE:
            return None
        g, a, b = nxt.children()
        if a.eq(s):
            g, a, b = simp(z3.Not(g)), b, a
        if not b.eq(s) or has_const([a], s) or not has_const([g], s):
            return None
        neg = z3.is_not(g)
        h = g.arg(0) if neg else g
        k = h.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return None
        # the difference of the two sides, as f(w(i)) - f(s)
        x, y = h.children()
        for new, old, sign in ((x, y, 1), (y, x, -1)):
            if has_const([old], i) or has_const([new], s) or not simp(z3.substitute(old, (s, a))).eq(simp(new)):
                continue
            greater = (k in (z3.Z3_OP_GE, z3.Z3_OP_GT)) != neg
            strict = (k in (z3.Z3_OP_LT, z3.Z3_OP_GT)) != neg
            kind = "max" if greater == (sign == 1) else "min"
            where = "first" if strict else "last"
            f = lambda p, old=old: simp(z3.substitute(old, (s, p)))
            shift = const(simp(a - i))
            if shift in (0, 1) and const(simp(c.init)) == 0:
                def place(t):
                    n = simp(t + shift)
                    m = mk_agg(kind, old.sort(), [i], [f(i)], n=n)
                    pos = logic.mk_where(where, n, i, simp(f(i) == m))
                    return pos if shift else simp(z3.If(t > 0, pos, c.init))
                return place
        return None

    def closed_unordered(self, c):
        """Loops over dict keys or nested ranges: only order-independent recurrences.
        The closed form holds for the whole loop."""
        nxt, s = c.next, c.c
        if s.sort() != BOOL and s.sort() != Obj:
            d = delta(nxt, s)
            if d is not None:
                def total(t):
                    e = d
                    for g in reversed(self.gens):
                        e = mk_sum(g[2], g[1], e) if g[0] == "r" else mk_ksum(g[1], g[2], e)
                    return simp(c.init + e)
                return total
        if s.sort() == BOOL:
            hi = simp(z3.substitute(nxt, (s, TRUE)))
            lo = simp(z3.substitute(nxt, (s, z3.BoolVal(False))))
            if z3.is_true(hi):
                return lambda t: simp(z3.Or(c.init, close_any(self.gens, lo)))
            if z3.is_false(lo):
                return lambda t: simp(z3.And(c.init, z3.Not(close_any(self.gens, z3.Not(hi)))))
        # an assignment keyed by the loop key: at most one iteration writes here
        ge = guarded(nxt, s)
        if ge is not None and not any(has_const([ge[1]], g[1]) for g in self.gens):
            # whichever iterations write, they write the same
            g, v = ge
            return lambda t: simp(z3.If(close_any(self.gens, g), v, c.init))
        if ge is not None and len(self.gens) == 1 and c.ps:
            g, v = ge
            k = self.gens[0][1]
            p = c.ps[0]
            if self.gens[0][0] == "k":
                # p == h(k) and k == u(h(k)): only the key u(p) writes here
                cjs = conjuncts(simp(z3.And(self.gens[0][2], g)))
                # each conjunct may be read knowing the others
                for n, cj in enumerate(cjs):
                    if z3.is_eq(cj):
                        cjs[n] = simp(z3.substitute(cj, *[(x, TRUE) for m, x in enumerate(cjs) if m != n and x.sort() == BOOL]))
                hs = [x for cj in cjs if z3.is_eq(cj) for x, y in (cj.children(), reversed(cj.children())) if y.eq(p) and has_const([x], k)]
                for h in hs:
                    for cj in cjs:
                        if not z3.is_eq(cj):
                            continue
                        for x, y in (cj.children(), reversed(cj.children())):
                            u = simp(z3.substitute(y, (h, p)))
                            if x.eq(k) and not has_const([u], k):
                                gg = simp(z3.substitute(z3.And(cjs), (k, u)))
                                vv = simp(z3.substitute(v, (k, u)))
                                return lambda t: simp(z3.If(gg, vv, c.init))
            if p.sort() == k.sort():
                # find the equation p == k + const among the conjuncts of g
                for cj in conjuncts(g):
                    if z3.is_eq(cj):
                        a, b = cj.children()
                        for x, y in ((a, b), (b, a)):
                            if x.eq(p) and y.eq(k) or x.eq(k) and y.eq(p):
                                inv = p
                            elif k.sort() == INT and x.eq(p) and not has_const([simp(y - k)], k):
                                inv = simp(p - (y - k))
                            else:
                                continue
                            gg = simp(z3.substitute(z3.And(self.gens[0][2], g), (k, inv)))
                            vv = simp(z3.substitute(v, (k, inv)))
                            return lambda t: simp(z3.If(gg, vv, c.init))
        raise Unsupported("order-dependent loop over a dict or nested ranges")

    # -------------------------------------------------------------- results
    def subs_all(self, st, i):
        prs = []
        for e in st:
            for c in e["cells"]:
                if c.closed is not None:
                    prs.append((c, c.closed))
        return prs

    def fix(self, t, prs, st, at=None):
        """t with the state replaced by its closed form at iteration `at`."""
        i = self.gens[0][1]
        at = i if at is None else at
        if not prs:
            return t
        # a running total after this iteration's step is the total one iteration on
        steps = [(c.next, f(simp(at + 1))) for c, f in prs
                 if self.ordered and c.summed and not hasattr(c, "uf") and has_const([c.next], c.c)] if at.eq(i) else []
        if steps:
            t = z3.substitute(t, *steps)
        cs = [(c.c, f(at)) for c, f in prs]
        if not self.ordered and any(has_const([t], c.c) for c, _ in prs):
            raise Unsupported("loop state read in an unordered loop")
        t = z3.substitute(t, *cs)
        for c, f in prs:
            if hasattr(c, "uf"):
                for _ in range(8):
                    us = [u for u in logic.subterms([t]).values() if z3.is_app(u) and u.decl().name() == c.uf.name()]
                    if not us:
                        break
                    if not self.ordered:
                        raise Unsupported("loop state read in an unordered loop")
                    us.sort(key=lambda u: len(logic.subterms([u])))
                    t = z3.substitute(t, (us[0], z3.substitute(f(at), *zip(c.ps, us[0].children()))))
        return simp(t)

    def fix_val(self, v, prs, st):
        if not prs:
            return v
        return map_terms(v, lambda t: self.fix(t, prs, st))

    def value_at(self, e, t):
        """The state entry at the start of iteration t."""
        if e["kind"] == "const":
            return e["init"]
        if e["kind"] == "append":
            return self.appended(e, t)
        if e["kind"] == "scalar":
            return e["rebuild"](lambda c: c.closed(t))
        return e["build"](lambda c, idx: z3.substitute(c.closed(t), *zip(c.ps, idx)))

    def appended(self, e, t):
        ip = self.ip
        v = e["init"]
        prs = self._prs
        outs = []
        for g, x in e["outs"]:
            if not isinstance(x, type(v)):
                raise Unsupported("loop state list replaced")
            s = x.seq
            if isinstance(s, StateSeq):
                tail = Ex([])
                head = s
            elif isinstance(s, Cat) and isinstance(s.parts[0], StateSeq):
                head = s.parts[0]
                tail = norm_seq(Cat(s.parts[1:]))
            else:
                raise I.NeedObj(None, ("read", e["tok"]))
            if head.token != e["tok"]:
                raise Unsupported("loop state lists mixed up")
            outs.append(I.Outcome([self.fix(g, prs, None)], "ok", self.fix_seq(tail, prs)))
        gens = [(k, b, (t if idx == 0 and k == "r" and t is not None else d)) for idx, (k, b, d) in enumerate(self.gens)]
        app = flatten_outs(ip, gens, self.cond, outs)
        r = norm_seq(Cat([v.seq, app]))
        return SetVal(r) if isinstance(v, SetVal) else ListVal(r, v.kind, v.cls, dict(v.attrs))

    def fix_seq(self, s, prs):
        if not prs:
            return s
        return map_terms(ListVal(s), lambda t: self.fix(t, prs, None)).seq

    def finish(self, st, n, setup):
        ip = self.ip
        self._prs = self.subs_all(st, None)
        vals = [(e, self.value_at(e, n)) for e in st]
        for e, val in vals:
            self.install(e, val)

    def install(self, e, val):
        ip = self.ip
        if e["kind"] == "const":
            return
        if e["key"][0] == "name":
            o = self.owner(e["key"][1])
            old = e["init"]
            if isinstance(old, (ListVal, DictVal)) and e.get("inplace", True) and self.mutated_in_place(e):
                fld = "map" if isinstance(old, DictVal) else "seq"
                ip.set_field(old, fld, getattr(val, fld))
                ip.set_key(o.vars, e["key"][1], old, o)
                return
            ip.set_key(o.vars, e["key"][1], val, o)
        else:
            o = e["key"][1]
            fld = "map" if isinstance(o, DictVal) else "seq"
            ip.set_field(o, fld, getattr(val, fld))

    def mutated_in_place(self, e):
        return False

    def exit_path(self, st, exits, eg, setup):
        """The loop ends early: at the first iteration whose exit condition holds."""
        ip = self.ip
        self._prs = self.subs_all(st, None)
        if not self.ordered:
            classes = {o.value.name for o in exits if o.kind == "raise"}
            if all(o.kind == "raise" for o in exits) and len(classes) == 1:
                raise I.PyRaise(exits[0].value.cls)
            raise Unsupported("early exit from an unordered loop")
        i, n = self.gens[0][1], self.gens[0][2]
        c = simp(z3.And(self.cond, eg))
        T = logic.mk_where("first", n, i, c)
        ip.assume(z3.And(T >= 0, T < n, z3.substitute(c, (i, T))))
        vals = [(e, self.value_at(e, T)) for e in st]
        for e, val in vals:
            self.install(e, val)
        x = sub(self.x, [(i, T)])
        for nm in self.names:
            if nm not in self.state_names:
                # possibly set by an earlier iteration; the exit path sets what it reads
                ip.set_key(self.owner(nm).vars, nm, I.Poison(nm, self.token), self.owner(nm))
        try:
            self.body(x)
        except I.ContinueSig:
            raise I.Infeasible()
        # the body came to its end: not an exit
        raise I.Infeasible()


class Promote(Exception):
    def __init__(self, key):
        self.key = key


class Relearn(Exception):
    pass


def zip_pairs(x):
    return []


def split_tags(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += ch == "("
        depth -= ch == ")"
        cur += ch
    if cur:
        out.append(cur)
    return out


def zero_like(v):
    if isinstance(v, (int, SInt)) and not isinstance(v, bool):
        return 0
    if isinstance(v, (float, SFl)):
        return 0.0
    if isinstance(v, (bool, SBool)):
        return False
    if isinstance(v, (SObj, SStr, str)):
        return SObj(lit(None), v.tag if isinstance(v, SObj) else "str")
    if isinstance(v, NpS):
        return zero_like(v.v)
    raise Unsupported("dict values %r" % (v,))


def snapshot(v):
    """A copy that later changes (or their undoing) cannot touch."""
    if isinstance(v, I.Poison):
        raise I.NeedName(v.token, v.name)
    if isinstance(v, ListVal):
        r = ListVal(v.seq, v.kind, v.cls, dict(v.attrs), v.ident)
        return r
    if isinstance(v, DictVal):
        return DictVal(v.map, v.ident)
    if isinstance(v, SetVal):
        return SetVal(v.seq)
    return v


def uses_uf(t, names):
    if not names:
        return False
    return any(z3.is_app(u) and u.decl().name() in names for u in logic.subterms([t]).values())


def delta(nxt, s):
    """nxt - s when that does not mention s (also under conditions without s)."""
    d = simp(nxt - s)
    if not has_const([d], s):
        return d
    if z3.is_app(nxt) and nxt.decl().kind() == z3.Z3_OP_ITE:
        g, a, b = nxt.children()
        if has_const([g], s):
            return None
        da, db = delta(a, s), delta(b, s)
        if da is not None and db is not None:
            return simp(z3.If(g, da, db))
    if z3.is_add(nxt):
        # if-then-else inside a sum
        rest, hit = [], None
        for ch in nxt.children():
            if has_const([ch], s):
                if hit is not None:
                    return None
                hit = ch
            else:
                rest.append(ch)
        if hit is not None and z3.is_app(hit) and hit.decl().kind() == z3.Z3_OP_ITE:
            d = delta(hit, s)
            if d is not None:
                return simp(d + z3.Sum(rest)) if rest else d
    return None


def conjuncts(g):
    g = simp(g)
    if z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c)]
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        return [x for c in g.arg(0).children() for x in conjuncts(simp(z3.Not(c)))]
    return [g]


def guarded(nxt, s):
    """(g, v) when nxt is `v where g, else s` with g, v free of s."""
    if nxt.eq(s):
        return z3.BoolVal(False), s
    if not has_const([nxt], s):
        return TRUE, nxt
    if z3.is_app(nxt) and nxt.decl().kind() == z3.Z3_OP_ITE:
        g, a, b = nxt.children()
        if has_const([g], s):
            return None
        ra, rb = guarded(a, s), guarded(b, s)
        if ra is None or rb is None:
            return None
        gg = simp(z3.If(g, ra[0], rb[0]))
        if z3.is_false(simp(ra[0])):
            return gg, rb[1]
        if z3.is_false(simp(rb[0])):
            return gg, ra[1]
        return gg, simp(z3.If(g, ra[1], rb[1]))
    return None


def maxmin(nxt, s):
    """('max'|'min', v) when nxt is max(v, s) or min(v, s)."""
    if z3.is_app(nxt) and nxt.decl().kind() == z3.Z3_OP_ITE:
        g, a, b = nxt.children()
        v = b if a.eq(s) else a if b.eq(s) else None
        if v is None or has_const([v], s):
            return None
        for kind, e in (("max", z3.If(v > s, v, s)), ("min", z3.If(v < s, v, s))):
            if logic.solve([nxt != e], 500) == "unsat":
                return kind, v
    return None


def assume_eq(t, eqc, val):
    """t with the equation (in either orientation, also inside comparisons) decided."""
    a, b = eqc.children()
    sv = z3.BoolVal(val)
    prs = [(eqc, sv), (b == a, sv), (simp(eqc), sv)]
    t = z3.substitute(t, *[(x, y) for x, y in prs if not z3.is_true(x) and not z3.is_false(x)])
    return simp(t)


def map_terms(v, f):
    """A value with every z3 term rewritten by f."""
    if v is None or isinstance(v, (int, float, str, bytes, bool)):
        return v
    if isinstance(v, SInt):
        return mkint(f(v.e))
    if isinstance(v, SBool):
        return mkbool(f(v.e))
    if isinstance(v, SFl):
        return SFl(f(v.e), None if v.k is None else f(v.k))
    if isinstance(v, SObj):
        return SObj(f(v.e), v.tag)
    if isinstance(v, SStr):
        return SStr([p if isinstance(p, str) else f(p) for p in v.parts])
    if isinstance(v, Choice):
        c = f(v.cond)
        if z3.is_true(c):
            return map_terms(v.a, f)
        if z3.is_false(c):
            return map_terms(v.b, f)
        return Choice(c, map_terms(v.a, f), map_terms(v.b, f))
    if isinstance(v, tuple):
        return tuple(map_terms(x, f) for x in v)
    if isinstance(v, NpS):
        return NpS(map_terms(v.v, f), v.np)
    if isinstance(v, ListVal):
        r = ListVal(map_seq_terms(v.seq, f), v.kind, v.cls, {k: map_terms(x, f) for k, x in v.attrs.items()}, v.ident)
        if v.origin is not None:
            r.origin, r.serial = (v.origin[0], v.origin[1], f(v.origin[2])), v.serial
        return r
    if isinstance(v, IterVal):
        r = IterVal(map_seq_terms(v.seq, f))
        r.used = v.used
        return r
    if isinstance(v, SetVal):
        return SetVal(map_seq_terms(v.seq, f))
    if isinstance(v, DictVal):
        m = v.map
        if isinstance(m, CMap):
            m = CMap({k: map_terms(x, f) for k, x in m.d.items()})
        else:
            m = SMap(m.k, f(m.has), map_terms(m.val, f), None if m.bound is None else f(m.bound))
        r = DictVal(m, v.ident)
        if v.origin is not None:
            r.origin, r.serial = (v.origin[0], v.origin[1], f(v.origin[2])), v.serial
        return r
    if isinstance(v, ObjVal) and (v.stub is None or not hasattr(v.stub, "sub")):
        from .seqs import terms

        acc = []
        terms(v, acc)
        if all(f(t) is t or f(t).eq(t) for t in acc):
            return v
        r = ObjVal(v.cls, {k: map_terms(x, f) for k, x in v.attrs.items()}, v.stub)
        r.ident = v.ident
        if v.origin is not None:
            r.origin, r.serial = (v.origin[0], v.origin[1], f(v.origin[2])), v.serial
        return r
    if isinstance(v, (_Skip, I.ModuleVal, I.ClassVal, I.Builtin, I.FuncVal, type)):
        return v
    raise Unsupported("loop state inside %r" % (v,))


def map_seq_terms(s, f):
    if isinstance(s, Ex):
        return Ex([map_terms(x, f) for x in s.elems])
    if isinstance(s, Tab):
        return Tab(f(s.n), s.i, map_terms(s.body, f), s.shared)
    if isinstance(s, Comp):
        return Comp([(g[0], g[1], f(g[2])) for g in s.gens], f(s.cond), map_terms(s.body, f))
    if isinstance(s, Cat):
        return Cat([map_seq_terms(p, f) for p in s.parts])
    return s


# ------------------------------------------------------------------ while loops
def while_loop(ip, node, env):
    from .whiles import while_loop as w

    return w(ip, node, env)
