"""While loops.

Three forms: loops whose course is decided without forking run as they are; loops driven
by a counter become summaries over the number of iterations; other loops over scalar state
become a 'while' aggregate with an inferred (Houdini) inductive invariant, a termination
argument, and the facts that hold at its exit."""
import z3

from . import interp as I
from . import logic
from .logic import has_const, mk_agg
from .loops import Summary, assigned_names, conj, disj, either_path, st_const, zip_pairs, _tok
from .seqs import merge, sub
from .values import *
from .values import FIN

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
MAX_UNROLL = 300


def run_plain(ip, node, env, limit):
    k = 0
    while ip.truth(ip.eval(node.test, env)):
        k += 1
        if k > limit:
            raise I.NoFork()
        try:
            ip.exec_block(node.body, env)
        except I.ContinueSig:
            pass
        except I.BreakSig:
            return
    ip.exec_block(node.orelse, env)


def decided(ip, node, env):
    """Does the loop run to its end without forking?"""
    saved, ip.nofork = ip.nofork, True
    try:
        ip.explore(lambda: run_plain(ip, node, env, MAX_UNROLL))
        return True
    except I.NoFork:
        return False
    except (I.ReturnSig, I.BreakSig, I.ContinueSig):
        return True
    finally:
        ip.nofork = saved


def while_loop(ip, node, env):
    if decided(ip, node, env):
        run_plain(ip, node, env, MAX_UNROLL + 1)
        return
    if ip.nofork:
        raise I.NoFork()
    While(ip, node, env).run()


class Learned(Exception):
    pass


class While:
    def __init__(self, ip, node, env):
        self.ip, self.node, self.env = ip, node, env
        self.names = assigned_names([node])
        self.token = next(_tok)
        self.state = []
        self.objs = []
        self.bounds = []  # (state position, bound term free of the state)

    def learn(self, a, flat):
        """An atom `cell >= t` or `cell > t` of a failing path suggests `cell < t`."""
        if not z3.is_app(a) or a.num_args() not in (1, 2):
            return
        if z3.is_not(a):
            a = a.arg(0)
        if not (z3.is_le(a) or z3.is_ge(a) or z3.is_lt(a) or z3.is_gt(a) or z3.is_eq(a)) or a.arg(0).sort() != INT:
            return
        for j, c in enumerate(flat):
            if c.c.sort() != INT:
                continue
            t = logic.solve_eq([a.arg(0) == a.arg(1)], c.c)
            if t is not None and not any(has_const([t], k.c) for k in flat):
                if all(not (jj == j and u.eq(t)) for jj, u in self.bounds):
                    self.bounds.append((j, t))

    def learned(self, flat):
        out = []
        for j, t in self.bounds:
            if j < len(flat):
                out += [simp(flat[j].c < t), simp(flat[j].c <= t)]
        return out

    def run(self):
        for _ in range(20):
            try:
                return self.attempt()
            except I.NeedName as e:
                if e.frame != self.token or e.name in self.state:
                    raise
                self.state.append(e.name)
            except I.NeedObj as e:
                if e.token != self.token or e.obj is None:
                    raise
                self.objs.append(e.obj)
            except Learned:
                pass
        raise Unsupported("while loop analysis does not settle")

    def attempt(self):
        ip, env = self.ip, self.env
        helper = Summary(ip, [("r", ip.fresh(), z3.IntVal(0))], TRUE, None, None, env, self.names)
        cells, rebuilds, inits = {}, {}, {}
        tags = {}
        for nm in self.state:
            v = helper.owner(nm).vars.get(nm, I._MISSING)
            if isinstance(v, I.Late):
                v = ip.lookup(helper.owner(nm), nm)
            if isinstance(v, I.Poison):
                raise I.NeedName(v.token, v.name)
            if v is I._MISSING:
                raise Unsupported("loop variable %s may be unbound" % nm)
            cells[nm], rebuilds[nm], tags[nm] = helper.scalar(ip.force(v), nm)
            inits[nm] = v
        flat = [c for nm in self.state for c in cells[nm]]
        allowed = {id(o) for o in self.objs}
        mark = last_serial()

        def setup():
            for nm in self.names:
                ip.set_key(helper.owner(nm).vars, nm, I.Poison(nm, self.token), None)
            for nm in self.state:
                ip.set_key(helper.owner(nm).vars, nm, rebuilds[nm](lambda c: c.c), None)

        def step():
            setup()
            if not ip.truth(ip.eval(self.node.test, env)):
                return "stop", None
            try:
                ip.exec_block(self.node.body, env)
            except I.ContinueSig:
                pass
            except I.BreakSig:
                return "break", self.values(helper)
            except I.ReturnSig:
                raise Unsupported("return inside a while loop")
            return "next", self.values(helper)

        cand = self.candidates(flat) + self.learned(flat)
        # what survived the last analysis of this loop (checked again below)
        hint_key = (id(self.node), tuple(self.state), len(cand))
        hint = ip.while_hints.get(hint_key)
        order = {k.get_id(): j for j, k in enumerate(cand)}
        if hint is not None:
            cand = [k for j, k in enumerate(cand) if j in hint]
        # the initial state satisfies the candidates
        cand = [k for k in cand if ip.entails(simp(z3.substitute(k, *[(c.c, c.init) for c in flat])) if flat else k)]
        while True:
            outs = ip.explore(step, assume=cand, template=(mark, allowed, self.token))
            bad = [o for o in outs if o.kind == "raise"]
            nexts = []
            for o in outs:
                if o.kind == "ok" and o.value[0] == "next":
                    ts = [t for nm in self.state for t in helper.match(tags[nm], o.value[1][nm], nm)]
                    nexts.append((o, ts))
            keep = []
            for k in cand:
                ok = True
                for o, ts in nexts:
                    g = simp(z3.substitute(k, *[(c.c, t) for c, t in zip(flat, ts)]))
                    if not logic.entails(ip.pc + cand + list(o.conds), g):
                        ok = False
                        break
                if ok:
                    keep.append(k)
            if len(keep) == len(cand):
                break
            cand = keep
        ip.while_hints[hint_key] = {order[k.get_id()] for k in cand}
        # counter loops
        if self.counter(helper, flat, cells, tags, outs, nexts, cand):
            return
        if self.objs:
            raise Unsupported("objects changed in a while loop")
        if bad:
            # bounds whose violation raises become candidates too
            n0 = len(self.bounds)
            for o in bad:
                for k in o.conds:
                    for a in logic.conjuncts(k):
                        self.learn(a, flat)
            if len(self.bounds) > n0:
                raise Learned()
            raise Unsupported("exception inside a while loop: %s" % [(o.value, str(simp(conj(o.conds)))[:300], [str(k) for k in cand]) for o in bad][:2])
        # fold the test into the body, after it when it reads flags only
        stops = [o for o in outs if o.value[0] == "stop"]
        breaks = [o for o in outs if o.value[0] == "break"]
        stop_c = either_path(o.conds for o in stops)
        nonbool = [c.c for c in flat if c.c.sort() != BOOL]
        flags_only = stops and not any(has_const([stop_c], c) for c in nonbool) and any(has_const([stop_c], c.c) for c in flat)
        exits, conts = [], []  # (guard, [state at exit])
        if flags_only:
            start = simp(z3.substitute(stop_c, *[(c.c, c.init) for c in flat]))
            if not z3.is_false(start):
                if ip.branch(start):
                    return
            for o, ts in nexts:
                sc = simp(z3.substitute(stop_c, *[(c.c, t) for c, t in zip(flat, ts)]))
                g = conj(o.conds)
                if not const(sc) in (True, False):
                    hyp = ip.pc + cand + list(o.conds)
                    if logic.quick_unsat(hyp, sc):
                        sc = FALSE
                    elif logic.quick_unsat(hyp, simp(z3.Not(sc))):
                        sc = TRUE
                if z3.is_true(sc):
                    exits.append((g, ts))
                elif z3.is_false(sc):
                    conts.append((g, ts))
                else:
                    exits.append((simp(z3.And(g, sc)), ts))
                    conts.append((simp(z3.And(g, z3.Not(sc))), ts))
        else:
            for o in stops:
                exits.append((conj(o.conds), [c.c for c in flat]))
            conts = [(conj(o.conds), ts) for o, ts in nexts]
        for o in breaks:
            ts = [t for nm in self.state for t in helper.match(tags[nm], o.value[1][nm], nm)]
            exits.append((conj(o.conds), ts))
        if not exits:
            raise Unsupported("while loop without an exit")
        # constant cells
        const_pairs = []
        changed = True
        while changed:
            changed = False
            for j, c in enumerate(flat):
                if any(p[0].eq(c.c) for p in const_pairs):
                    continue
                if all(simp(z3.substitute(ts[j], *(const_pairs + [(c.c, c.init)]))).eq(simp(c.init)) for _, ts in conts):
                    const_pairs.append((c.c, c.init))
                    changed = True
        S = lambda t: simp(z3.substitute(t, *const_pairs)) if const_pairs else simp(t)
        live = [j for j, c in enumerate(flat) if not any(p[0].eq(c.c) for p in const_pairs)]
        exit_c = S(disj(g for g, _ in exits))
        nx = {j: S(merge_terms([(g, ts[j]) for g, ts in conts])) if conts else flat[j].c for j in live}
        ex = {j: S(merge_terms([(g, ts[j]) for g, ts in exits])) for j in range(len(flat))}
        inv_c = S(conj(cand))
        # state that matters
        need = set()
        work = [j for j in live if has_const([exit_c] + [ex[k] for k in range(len(flat))], flat[j].c)]
        while work:
            j = work.pop()
            if j in need:
                continue
            need.add(j)
            work += [k for k in live if k not in need and has_const([nx[j]], flat[k].c)]
        live = [j for j in live if j in need]
        hyp = ip.pc + [inv_c, z3.Not(exit_c)] + cand
        if not self.terminates(flat, live, nx, hyp, cand):
            raise Unsupported("no termination argument for a while loop")
        bvs = [flat[j].c for j in live]
        init = [flat[j].init for j in live]
        res = {}
        for j in live:
            bodies = [exit_c, inv_c, flat[j].c] + [nx[k] for k in live]
            res[j] = mk_agg("while", flat[j].c.sort(), bvs, bodies, extra=init, aux=1)
        pairs = [(flat[j].c, res[j]) for j in live]
        fact = simp(z3.And(z3.substitute(exit_c, *pairs), z3.substitute(inv_c, *pairs))) if pairs else TRUE
        if live:
            self.register(res, live, bodies_fact=(exit_c, inv_c), flat=flat)
        final = [simp(z3.substitute(ex[j], *pairs)) if pairs else ex[j] for j in range(len(flat))]
        # results
        pos = {id(c): t for c, t in zip(flat, final)}
        for nm in self.state:
            o = helper.owner(nm)
            ip.set_key(o.vars, nm, rebuilds[nm](lambda c: pos[id(c)]), o)
        for nm in self.names:
            if nm not in self.state:
                o = helper.owner(nm)

                def late(nm=nm):
                    raise Unsupported("value of %s after a while loop" % nm)

                ip.set_key(o.vars, nm, I.Late(late), o)
        if self.node.orelse:
            raise Unsupported("while-else")

    def values(self, helper):
        out = {}
        for nm in self.state:
            v = helper.owner(nm).vars[nm]
            if isinstance(v, I.Poison):
                raise I.NeedName(v.token, v.name)
            out[nm] = v
        return out

    def candidates(self, flat):
        out = []
        for c in flat:
            out.append(c.c == c.init)
            if c.c.sort() == INT:
                out += [c.c >= 0, c.c >= c.init]
                for d in self.ip.dims:
                    out.append(c.c < d)
                    if not self.ip.entails(c.init < d):
                        out.append(c.c <= d)
        res, seen = [], set()
        for k in out:
            k = simp(k)
            if k.get_id() not in seen:
                seen.add(k.get_id())
                logic.node(k)
                res.append(k)
        return res

    def terminates(self, flat, live, nx, hyp, cand):
        for j in live:
            c = flat[j].c
            if c.sort() != INT:
                continue
            up = any(logic.entails(hyp, c < d) for d in list(self.ip.dims) + [t for jj, t in self.bounds if jj == j])
            if up and logic.entails(hyp, nx[j] > c):
                return True
            if logic.entails(hyp, c >= 0) and logic.entails(hyp, nx[j] < c):
                return True
        return not live

    def register(self, res, live, bodies_fact, flat):
        """At the exit, the exit condition and the invariant hold of the final state."""
        exit_c, inv_c = bodies_fact
        decls = [res[j].decl() for j in live]
        for j in live:
            nm = res[j].decl().name()
            if nm in logic.AXIOMS:
                continue
            d = logic.AGGS[nm]

            def fn(*args, decls=decls, d=d):
                app = d.decl(*args)
                _, ps, ex = logic.parts(app, d)
                vals = []
                for dd in decls:
                    d2 = logic.AGGS[dd.name()]
                    # same parameters by construction: the bodies share them
                    vals.append(dd(*(list(ps) + list(ex))) if len(d2.params) == len(ps) else None)
                if any(v is None for v in vals):
                    return None
                return z3.And(logic.body_at(app, vals, d, 0), logic.body_at(app, vals, d, 1))

            logic.AXIOMS[nm] = [fn]

    # ---------------------------------------------------------------- counters
    def counter(self, helper, flat, cells, tags, outs, nexts, cand):
        """A loop `while test(v): ... v += c`: as a summary over its iterations."""
        ip, env = self.ip, self.env
        if not nexts:
            return False
        stops = [o for o in outs if o.kind == "ok" and o.value[0] == "stop"]
        stop_c = either_path(o.conds for o in stops)
        for nm in self.state:
            if tags[nm] != "i":
                continue
            j = [k for k, c in enumerate(flat) if c is cells[nm][0]][0]
            c = flat[j]
            ds = [simp(ts[j] - c.c) for _, ts in nexts]
            if any(const(d) is None for d in ds) or len({const(d) for d in ds}) != 1 or const(ds[0]) == 0:
                continue
            stepc = const(ds[0])
            test = simp(z3.Not(stop_c))
            # strip what the invariants add
            if any(has_const([test], k.c) for k in flat if k is not c):
                continue
            i = ip.fresh()
            at = simp(z3.substitute(test, (c.c, c.init + stepc * i)))
            B = upto(ip, at, i)
            T = mk_agg("trip", INT, [i], [at]) if B is None else simp(z3.If(B > 0, B, z3.IntVal(0)))
            # termination: the test fails from some point on
            subs = [t for t in logic.subterms([test]).values() if t.sort() == INT and not has_const([t], c.c)]
            subs += list(ip.dims)
            ok = any(logic.entails(ip.pc + [test], (c.c <= t) if stepc > 0 else (c.c >= t)) for t in subs[:12])
            ok = ok or B is not None or (len(subs) > 1 and any(
                logic.entails(ip.pc + [test], c.c <= a - b) for a in subs[:6] for b in subs[:6] if stepc > 0))
            if not ok:
                continue
            node, names = self.node, [n for n in self.names]

            def body(x):
                v = mkint(simp(c.init + stepc * x.e) if isinstance(x, SInt) else c.init + stepc * x)
                o = helper.owner(nm)
                ip.set_key(o.vars, nm, v, o)
                ip.exec_block(node.body, env)
                w = o.vars[nm]
                if not ip.entails(zint(w) == zint(v) + stepc):
                    raise Unsupported("loop counter")

            S = Summary(ip, [("r", i, T)], TRUE, SInt(i), body, env, names)
            S.run()
            o = helper.owner(nm)
            ip.set_key(o.vars, nm, mkint(simp(c.init + stepc * T)), o)
            if node.orelse:
                raise Unsupported("while-else")
            return True
        return False


def upto(ip, at, i):
    """B when the test `at` holds exactly for 0 <= i < B, the iterations counted from 0."""
    for t in logic.subterms([at]).values():
        if not (z3.is_le(t) or z3.is_ge(t) or z3.is_lt(t) or z3.is_gt(t)) or t.arg(0).sort() != INT or not has_const([t], i):
            continue
        d = t.arg(0) - t.arg(1)
        d0 = simp(z3.substitute(d, (i, z3.IntVal(0))))
        k = const(simp(z3.substitute(d, (i, z3.IntVal(1))) - d0))
        if k is None or k == 0 or not z3.eq(simp(d - d0 - k * i), z3.IntVal(0)):
            continue
        # the sign changes at -d0 / k: on either side of the bound
        q = simp(-d0) if k == 1 else d0 if k == -1 else simp(-d0 / k) if k > 0 else simp(d0 / -k)
        for B in (q, simp(q + 1)):
            if logic.entails(ip.pc + [i >= 0], at == (i < B)):
                return B
    return None


def merge_terms(gts):
    t = gts[-1][1]
    for g, x in reversed(gts[:-1]):
        t = z3.If(g, x, t)
    return simp(t)
