"""Inductive rule for loops over an external world.  The world (files, connections, counters) lives in ghost variables;
when a case declares one (ctx.ghost), a loop is verified by havocking every program variable and ghost variable it
changes, assuming the loop invariant, executing one arbitrary iteration and showing the invariant again (Hoare's rule).
The invariant is the strongest conjunction of candidate relations that is inductive (Houdini): only proved conjuncts are
used, so a missing candidate can only lose precision."""
from __future__ import annotations
import itertools
import z3
from . import core, loops, seq
from .core import I, R, B, SVal, SInt, SBool, wrap, lift, fresh, Unsupported, Infeasible
from .loops import Poison, MISSING, run_paths, _scalar_term, _snapshot_lists, _restore_lists


class Ghost:
    """s: name -> z3 term.  Changes are made by rebinding entries of s.
    counters: ghost names that advance by one wherever a list collected by a loop grows; history: functions recording, per
    value of a counter, what the world was asked (world(counter) -> term); candidates(ghost values, ints, names of changed ghosts) -> more candidate
    invariants (each a term)."""

    def __init__(self, **s):
        self.s = dict(s)
        self.report = []
        self.counters = {}                 # ghost name -> [history function, ...]
        self.candidates = lambda g, ints, changed: []
        self.triples = True                # candidates relating two changed numbers and an unchanged one


class Fault(BaseException):
    """mixin of exceptions raised by the world; .t identifies the event"""
    t = None
    __dv_fault__ = True

    def __init__(self, t=None, *a):
        BaseException.__init__(self, "injected")
        self.t = t


class SentinelIter:
    def __init__(self, f, sentinel):
        self.f, self.sentinel = f, sentinel


class Parts:
    """a changed variable: how to rebuild it from constants"""

    def __init__(self, ints=(), bools=(), make=None, cond=()):
        self.ints, self.bools, self.make, self.cond = list(ints), list(bools), make, list(cond)


def active():
    return getattr(core.ctx(), "ghost", None)


def terms_at(name, v, like):
    """the constants' values when the variable holds v: list of terms in the order of like, or None"""
    kind = like[0]
    if kind == "grow":
        return [seq.dterm(v.n)] if isinstance(v, seq.SymSeq) else ([z3.IntVal(len(v))] if isinstance(v, list) else None)
    if kind == "scalar":
        t = _scalar_term(v)
        return None if t is None or t.sort() != like[1] else [t]
    if kind == "obj":
        f = getattr(v, "__dv_state__", None)
        return None if f is None else [t for _, t in f()]
    if kind == "fault":
        orig = like[1]
        if isinstance(v, Fault):
            return [z3.BoolVal(True), v.t]
        return [z3.BoolVal(False), z3.IntVal(-1)] if v is orig else None
    return None


class Peel(Exception):
    pass


def unread(k):
    raise Unsupported("a list is read in the loop that collects it")


def run(c, G, kind, it, cond, body, get0, sett0):
    """one iteration is executed first when it changes the kind of a variable (an initial None)"""
    for _ in range(3):
        try:
            return rule(c, G, kind, it, cond, body, get0, sett0)
        except Peel:
            if kind == "for":
                raise Unsupported("loop variable of changing kind")
            if not cond():
                return None
            r = body()
            if r is not None:
                return r
    raise Unsupported("loop variable of changing kind")


def mentions_any(t, names):
    return bool(set(core.free_consts(t)) & names)


def unwitnessed(t, p):
    return not loops._fresh_in(t, p, None)


def grown(c, G, n, len0, base, hlen, hv, order, inv, ghosts, g0, normal):
    """element function of a list that every iteration extends by one element, or None"""
    hyp = z3.And(*inv) if inv else z3.BoolVal(True)
    for cn, logs in G.counters.items():
        if cn not in ghosts:
            continue
        h = ghosts[cn]
        off = z3.simplify(z3.IntVal(len0) - g0[cn])
        s = c.solver_for([])
        for x in c.hyps + inv:
            s.add(x)
        s.set("timeout", 3000)
        s.add(hlen - h != off)
        if s.check() != z3.unsat:
            continue
        changed = {x.decl().name() for x in hv} - {h.decl().name()}
        out = None
        good = True
        for p, vals in normal:
            v = p.state[n]
            if not z3.is_int_value(z3.simplify(seq.dterm(v.n) - hlen)) or z3.simplify(seq.dterm(v.n) - hlen).as_long() != 1:
                good = False
                break
            saved = core.ctx()
            core.set_ctx(p.ctx)
            nh = len(p.ctx.hyps)
            p.ctx.hyps.extend(inv)
            try:
                x = v.fn(hlen)
                x = loops.subst_value(x, [(hlen, h + off)])
                pairs = []
                for t in loops.terms_of(x):
                    if mentions_any(t, changed) or not unwitnessed(t, p):
                        for L in logs:
                            if L(h).sort() == t.sort() and p.ctx.entails(t == L(h), 4000):
                                pairs.append((t, L(h)))
                                break
                        else:
                            good = False
                if good:
                    x = loops.subst_value(x, pairs)
                    probe = flat_terms(x)
                    if any(mentions_any(t, changed) or not unwitnessed(t, p) for t in probe):
                        good = False
                    elif out is None:
                        out = (x, probe)
                    elif len(out[1]) != len(probe) or not all(a.eq(b) for a, b in zip(out[1], probe)):
                        good = False
            finally:
                del p.ctx.hyps[nh:]
                core.set_ctx(saved)
            if not good:
                break
        if good and out is not None:
            x = out[0]

            def F(j):
                return loops.subst_value(x, [(h, z3.simplify(j - off))])
            if all(agrees(c, b, F(z3.IntVal(i))) for i, b in enumerate(base)):
                return F
            return lambda j: F(j) if c_known(j, len0) else mixed(base, j, F)
    return None


def c_known(j, n):
    return n == 0 or core.ctx().entails(j >= n)


def mixed(base, j, F):
    for i, b in enumerate(base):
        if core.ctx().branch(j == i):
            return b
    return F(j)


PH = [z3.Const(f"ph?{i}", I) for i in range(6)]


def flat_terms(x):
    if getattr(x, "__dv_tensor__", False):
        cs = x.flatcomps()
        return [z3.simplify(cc.size) for cc in cs] + [z3.simplify(x.snapshot()(PH[:len(cs)]))]
    if isinstance(x, (list, tuple)):
        return [t for e in x for t in flat_terms(e)]
    return [z3.simplify(t) for t in loops.terms_of(x)]


def agrees(c, a, b):
    if type(a) is not type(b):
        return False
    ta, tb = flat_terms(a), flat_terms(b)
    return len(ta) == len(tb) and all(x.eq(y) or (x.sort() == y.sort() and c.entails(x == y, 3000)) for x, y in zip(ta, tb))


def rule(c, G, kind, it, cond, body, get0, sett0):
    def get():
        s = get0()
        s["\0g"] = dict(G.s)
        return s

    def sett(s):
        sett0({n: v for n, v in s.items() if n != "\0g"})
        if "\0g" in s:
            G.s = dict(s["\0g"])
    base = get()
    g0 = base["\0g"]
    lists0 = _snapshot_lists(base)
    k = fresh("it")
    guard = it.in_range(k) if kind == "for" else z3.BoolVal(True)
    likes, consts, kinds = {}, {}, {}          # program variables
    ghosts = {}                                # ghost variables

    def head(s0, gs0):
        """state with the changed variables replaced"""
        s = dict(s0)
        g = dict(gs0)
        for n, like in likes.items():
            cs = consts.get(n, ())
            if like[0] == "scalar":
                s[n] = wrap(cs[0])
            elif like[0] == "obj":
                s[n] = like[1].__dv_rebuild__(cs)
            elif like[0] == "grow":
                s[n] = seq.SymSeq(wrap(cs[0]), like[1].get("fn", unread))
            elif like[0] == "fault":
                if core.ctx().branch(cs[0]):
                    ks = sorted(kinds[n], key=lambda q: q.__name__)
                    while len(ks) > 1 and not core.ctx().decide(None, "kind of error"):
                        ks.pop(0)
                    s[n] = ks[0](cs[1])
            else:
                s[n] = Poison(n)
        for n, h in ghosts.items():
            g[n] = h
        s["\0g"] = g
        return s

    def prep():
        sett(head(base, g0))
        _restore_lists(lists0)

        def restore():
            sett(base)
            _restore_lists(lists0)
        return restore

    def once(x):
        if cond is not None and not cond():
            raise Infeasible()
        return body(x) if kind == "for" else body()
    for rnd in range(8):
        paths = run_paths(k, guard, prep, once, (it.elem if kind == "for" else lambda q: None), get, sett, site=k.get_id())
        grew = False
        for p in paths:
            if p.outcome.kind not in ("normal",):
                continue
            for n, v in p.state.items():
                if n == "\0g":
                    for gn, gt in v.items():
                        if gn in g0 and gn not in ghosts and gt.get_id() != g0[gn].get_id():
                            ghosts[gn] = fresh("g_" + gn, gt.sort())
                            grew = True
                    continue
                if n not in base or isinstance(base[n], Poison):
                    continue
                if n in likes:
                    if likes[n][0] == "fault" and isinstance(v, Fault) and type(v) not in kinds[n]:
                        kinds[n].add(type(v))
                        grew = True
                    if likes[n][0] != "poison" and terms_at(n, v, likes[n]) is None:
                        likes[n], grew = ("poison",), True
                    continue
                b = base[n]
                if isinstance(v, list) and n in lists0 and type(b) is list:
                    old, now = lists0[n][1], loops.raw(v) if v is not b else p.lists[n][1]
                    if len(now) > len(old) and all(x is y for x, y in zip(now, old)):
                        if sum(1 for w in base.values() if w is b) > 1:
                            raise Unsupported(f"list {n} grows under two names")
                        likes[n], consts[n] = ("grow", {}), [fresh("len_" + n)]
                        grew = True
                        continue
                if v is b:
                    continue
                if b is None and _scalar_term(v) is not None:
                    raise Peel()
                t0, t1 = _scalar_term(b), _scalar_term(v)
                if t0 is not None and t1 is not None and t0.sort() == t1.sort():
                    if t0.get_id() == t1.get_id():
                        continue
                    likes[n], consts[n] = ("scalar", t0.sort()), [fresh("v_" + n, t0.sort())]
                elif hasattr(b, "__dv_state__") and type(b) is type(v):
                    likes[n] = ("obj", b)
                    consts[n] = [fresh(f"v_{n}_{f}", t.sort()) for f, t in b.__dv_state__()]
                elif isinstance(v, Fault):
                    likes[n], consts[n], kinds[n] = ("fault", b), [fresh("set_" + n, B), fresh("v_" + n, I)], {type(v)}
                elif type(v) is type(b) and isinstance(v, (str, bytes, tuple, frozenset, type(None))) and v == b:
                    continue
                else:
                    likes[n] = ("poison",)
                grew = True
            for n, (v, now) in p.lists.items():
                if n in lists0 and n not in likes and v is lists0[n][0] and (len(now) != len(lists0[n][1]) or isinstance(now, list) and any(a is not b for a, b in zip(now, lists0[n][1]))):
                    raise Unsupported(f"list {n} changes in a loop over the world")
            if p.written:
                raise Unsupported("tensor written in a loop over the world")
        if not grew:
            break
    else:
        raise Unsupported("loop state does not stabilise")
    # ---- candidate invariants over (constants -> values)
    hv, iv = [], []              # (constant, initial value)
    order = []
    for n, like in likes.items():
        if like[0] == "poison":
            continue
        t0 = terms_at(n, base[n], like)
        for cst, a in zip(consts[n], t0):
            hv.append(cst)
            iv.append(a)
            order.append((n, like))
    for n, h in ghosts.items():
        hv.append(h)
        iv.append(g0[n])
        order.append(("\0g", n))
    if kind == "for":
        hv.append(k)
        iv.append(z3.IntVal(0))
        order.append(("\0k", None))
    ints = [i for i, h in enumerate(hv) if h.sort() == I]
    bools = [i for i, h in enumerate(hv) if h.sort() == B]
    others = []
    for n, v in base.items():
        if n != "\0g" and n not in likes and not isinstance(v, Poison):
            t = _scalar_term(v)
            if t is not None and t.sort() == I and not z3.is_int_value(t):
                others.append(t)
    for n, t in g0.items():
        if G.triples and n not in ghosts and t.sort() == I and not z3.is_int_value(t):
            others.append(t)
    cands = []
    for a, b in itertools.combinations(ints, 2):
        cands.append(lambda x, a=a, b=b: x[a] - x[b] == iv[a] - iv[b])
        cands.append(lambda x, a=a, b=b: x[a] + x[b] == iv[a] + iv[b])
    for a in ints:
        cands.append(lambda x, a=a: x[a] >= iv[a])
        cands.append(lambda x, a=a: x[a] <= iv[a])
        cands += [lambda x, a=a: x[a] >= 0, lambda x, a=a: x[a] >= 1]
        for u in others:
            cands += [lambda x, a=a, u=u: x[a] <= u, lambda x, a=a, u=u: x[a] < u, lambda x, a=a, u=u: x[a] >= u, lambda x, a=a, u=u: x[a] == u]
    for a in ints if G.triples else ():
        for u in others:
            for b in ints:
                cands.append(lambda x, a=a, b=b, u=u: z3.Or(x[a] == u, x[b] == iv[b]))
    for a in bools:
        cands += [lambda x, a=a: x[a], lambda x, a=a: z3.Not(x[a])]
        for b in bools:
            if a != b:
                cands += [lambda x, a=a, b=b: z3.Implies(x[a], x[b]), lambda x, a=a, b=b: z3.Implies(x[a], z3.Not(x[b])), lambda x, a=a, b=b: z3.Implies(z3.Not(x[a]), x[b])]
        for b in ints:
            cands += [lambda x, a=a, b=b: x[a] == (x[b] == iv[b]), lambda x, a=a, b=b: x[a] == (x[b] != iv[b]), lambda x, a=a, b=b: z3.Implies(x[a], x[b] == iv[b])]
    for i, (n, like) in enumerate(order):
        if isinstance(like, tuple) and like[0] == "fault" and hv[i].sort() == I:
            s = i - 1
            for b in ints:
                if b != i:
                    cands.append(lambda x, s=s, i=i, b=b: z3.Implies(x[s], x[i] == x[b]))
    if kind == "for":
        kk = len(hv) - 1
        cands.append(lambda x: x[kk] < it.count())
    gi = {n: i for i, (o, n) in enumerate(order) if o == "\0g"}
    pi = [i for i in ints if order[i][0] not in ("\0g", "\0k") and order[i][1][0] == "scalar"]

    def world(x):
        return G.candidates({n: (x[gi[n]] if n in gi else t) for n, t in g0.items()}, [x[i] for i in pi], set(gi))
    for i in range(len(world(hv))):
        cands.append(lambda x, i=i: world(x)[i])

    def post_values(p):
        g = p.state["\0g"]
        out = []
        for cst, (n, like) in zip(hv, order):
            if n == "\0k":
                out.append(k + 1)
            elif n == "\0g":
                out.append(g[like])
            else:
                v = p.state.get(n, MISSING)
                ts = terms_at(n, v, like) if v is not MISSING else None
                if ts is None:
                    return None
                out.append(ts[[i for i, cc in enumerate(consts[n]) if cc.eq(cst)][0]])
        return out
    normal = [(p, post_values(p)) for p in paths if p.outcome.kind == "normal"]
    if any(v is None for _, v in normal):
        raise Unsupported("loop state lost")
    # the same loop at the same point of a re-executed path prefix has the same invariant (constants are only renamed)
    memo = c.opts.setdefault("_inv", {}) if isinstance(getattr(c, "opts", None), dict) else {}
    key = (len(c.log), tuple(c.taken), len(cands), len(normal), len(G.report))
    if key in memo:
        live = [cands[i] for i in memo[key]]
    else:
        live = infer(c, cands, hv, iv, normal)
        at = {id(f): i for i, f in enumerate(cands)}
        memo[key] = [at[id(f)] for f in live]
    G.report.append((len(cands), len(live), len(normal)))
    # ---- continue from the invariant
    inv = [f(hv) for f in live]
    for n, like in likes.items():
        if like[0] == "grow":
            F = grown(c, G, n, len(lists0[n][1]), lists0[n][1], consts[n][0], hv, order, inv, ghosts, g0, normal)
            if F is not None:
                like[1]["fn"] = F
    if c.decide(None, "an arbitrary iteration"):
        if kind == "for":
            c.assume(guard)
        for f in inv:
            c.assume(f)
        s = head(base, g0)
        for p in paths:
            for n in p.state:
                if n not in base:
                    s[n] = Poison(n)
        sett(s)
        if cond is not None and not cond():
            raise Infeasible()
        with core.iteration(k.get_id(), k):
            r = body(it.elem(k)) if kind == "for" else body()
        if r is None:
            raise core.PathEnd()
        return r if r[0] != "break" else ("break",)
    # the loop ends normally
    if kind == "for":
        c.assume(k == it.count())
    for f in inv:
        c.assume(f)
    if c.check([], c.branch_ms) == z3.unsat:
        raise Infeasible()
    s = head(base, g0)
    for p in paths:
        for n in p.state:
            if n not in base:
                s[n] = Poison(n)
    sett(s)
    if cond is not None and cond():
        raise Infeasible()
    return None


def infer(c, cands, hv, iv, normal):
    """the largest inductive subset of the candidates"""
    live = []
    for f in cands:
        if c.entails(f(iv), 2000):
            live.append(f)
    # preservation
    while True:
        bad = set()
        for p, vals in normal:
            s = p.ctx.solver_for([])
            s.set("timeout", 4000)
            for h in p.ctx.hyps:
                s.add(h)
            for f in live:
                s.add(f(hv))
            if s.check() == z3.unsat:
                continue
            for i, f in enumerate(live):
                if i in bad:
                    continue
                s.push()
                s.add(z3.Not(f(vals)))
                r = s.check()
                s.pop()
                if r != z3.unsat:
                    bad.add(i)
        if not bad:
            break
        live = [f for i, f in enumerate(live) if i not in bad]
    return live
