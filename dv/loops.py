"""Loops over symbolic ranges: one arbitrary iteration is executed from a havocked state, the effect on every written
cell is classified (additive accumulation, slot write, append, closed-form scalar, early exit) and the loop is replaced
by its closed form.  Anything that does not fit raises Unsupported."""
from __future__ import annotations
import z3
from . import core, seq, strs, sums
from .core import I, R, B, SVal, SInt, SReal, SBool, wrap, lift, mkif, mkand, mkor, fresh, Unsupported, Infeasible, toreal
from .tensor import STensor, Storage, memo, ZERO

MISSING = object()


class Poison:
    """Value of a loop-local variable after a summarised loop: any use is unsupported."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _die(self, *a, **k):
        raise Unsupported(f"loop variable {object.__getattribute__(self, '_n')!r} used after a symbolic loop")

    def __getattribute__(self, name):
        if name in ("__class__",):
            return object.__getattribute__(self, name)
        object.__getattribute__(self, "_die")()

    __bool__ = __call__ = __getitem__ = __iter__ = __len__ = __add__ = __radd__ = __sub__ = __mul__ = __eq__ = __lt__ = \
        lambda self, *a: object.__getattribute__(self, "_die")()
    __hash__ = object.__hash__


class Growing(list):
    """A list that a loop collects: the loop may append to it but not look at it (its content is that of another iteration)."""

    def _no(self, *a, **k):
        raise Unsupported("a list is read in the loop that collects it")
    __len__ = __iter__ = __getitem__ = __setitem__ = __delitem__ = __contains__ = __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = \
        __add__ = __iadd__ = __mul__ = __imul__ = __reversed__ = insert = pop = remove = clear = sort = reverse = index = count = copy = extend = _no
    __hash__ = None


def raw(v):
    return list.__getitem__(v, slice(None)) if isinstance(v, list) else list(v)


class Outcome:
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


# write log: every Storage content change is reported through Ctx.wlog (list of stacks)
_WLOG = []
_orig_setattr = Storage.__dict__["fn"].__set__


def note_write(st):
    for l in _WLOG:
        if id(st) not in l:
            l[id(st)] = (st, st.fn)


def for_loop(it, body, get, sett):
    """it: iterable; body(elem)->None|('break',)|('return',v); get()->dict; sett(dict)."""
    if isinstance(it, Poison):
        it._die()
    if type(it) is list and any(type(e).__name__ == "Splice" for e in it):
        from . import text
        it = text.unsplice(it)
    if type(it).__name__ == "SentinelIter":
        cell = []

        def more():
            cell[:] = [it.f()]
            return not (cell[0] == it.sentinel)
        return while_loop(more, lambda: body(cell[0]), get, sett)
    if not seq.is_symbolic(it):
        for x in it:
            r = body(x)
            if r is not None:
                return r
        return None
    if getattr(core.ctx(), "ghost", None) is not None:
        from . import ghost
        return ghost.run(core.ctx(), core.ctx().ghost, "for", seq.as_symseq(it) if getattr(it, "__dv_tensor__", False) else it, None, body, get, sett)
    if getattr(it, "__dv_tensor__", False):
        it = seq.as_symseq(it)
    return summarise(it, body, get, sett)


def while_loop(cond, body, get, sett):
    n = 0
    c = core.ctx()
    if getattr(c, "ghost", None) is not None:
        from . import ghost
        return ghost.run(c, c.ghost, "while", None, cond, body, get, sett)
    inv = getattr(c, "while_inv", None)
    if inv is not None:
        r = inv(cond, body, get, sett)
        if r is not NotImplemented:
            return r
    if getattr(c, "bag", None) is not None:
        return bag_loop(c, c.bag, cond, body, get, sett)
    while cond():
        n += 1
        if n > c.max_unroll:
            raise Unsupported("while loop without a bound")
        r = body()
        if r is not None:
            return r
    return None


def bag_loop(c, bag, cond, body, get, sett):
    """while loop that collects values: invariant "every collected value satisfies bag.pred" for lists appended in the loop;
    integer and real variables changed by the loop are arbitrary.  One branch shows preservation from an arbitrary state,
    the other continues after the loop from an arbitrary state in which the condition is false."""
    base = get()
    lists0 = _snapshot_lists(base)
    havoc, appended = {}, set()
    for rnd in range(5):
        def prep():
            s = dict(base)
            s.update({n: wrap(h) for n, h in havoc.items()})
            for n in appended:
                s[n] = bag.make(n)[0]
            sett(s)

            def restore():
                sett(base)
                _restore_lists(lists0)
            return restore

        def once(_):
            if not cond():
                raise Infeasible()
            return body()
        paths = run_paths(fresh("w"), z3.BoolVal(True), prep, once, lambda k: None, get, sett)
        new = {}
        for p in paths:
            for n, v in p.state.items():
                t0, t1 = _scalar_term(base.get(n, MISSING)), _scalar_term(v)
                if n in base and n not in havoc and t1 is not None and (t0 is None or not (t0.sort() == t1.sort() and t0.get_id() == t1.get_id())):
                    new[n] = fresh("w_" + n, t1.sort())
        grown = {n for p in paths for n, (v, now) in p.lists.items() if isinstance(base.get(n), list) and v is base[n] and
                 (len(now) != len(lists0[n][1]) or any(a is not b for a, b in zip(now, lists0[n][1])))} - appended
        if not new and not grown:
            break
        havoc.update(new)
        appended |= grown
    else:
        raise Unsupported("while loop state does not stabilise")
    state = dict(base)
    state.update({n: wrap(h) for n, h in havoc.items()})
    marks = {}
    for n in appended:
        for x in base[n]:
            bag.check(n, x, "initially")
        state[n], marks[n] = bag.make(n)
        c.assume(lift(state[n].n) >= len(base[n]))
    for n, v in list(state.items()):
        if n not in base:
            state[n] = Poison(n)
    for p in paths:
        for n in p.state:
            if n not in base or (p.state[n] is not base[n] and n not in havoc and n not in appended):
                state[n] = Poison(n)
    sett(state)
    if c.decide(None, "an arbitrary iteration of the while loop"):
        pre = {n: (state[n], state[n].n, state[n].fn) for n in appended}
        before = {n: h for n, h in havoc.items()}
        if not cond():
            raise Infeasible()
        r = body()
        if r is not None and r[0] != "break":
            return r
        now = get()
        for n, (v, n0, f0) in pre.items():
            if now[n] is not v:
                raise Unsupported("collected list rebound in a while loop")
            d = sums.canon(v.n - n0)
            if not z3.is_int_value(d):
                raise Unsupported("collected list changed other than by appends")
            for i in range(d.as_long()):
                bag.check(n, v.fn(sums.canon(n0 + i)) if not hasattr(v, "last") else v.last, "each collected value")
        bag.progress({n: (h, _scalar_term(now[n])) for n, h in before.items()}, {n: (n0, v.n) for n, (v, n0, f0) in pre.items()})
        if r is not None:
            return None
        raise core.PathEnd()
    if cond():
        raise Infeasible()
    return None


def _snapshot_lists(state):
    return {n: (v, raw(v)) for n, v in state.items() if isinstance(v, list)} | \
           {n: (v, dict(v)) for n, v in state.items() if type(v) is dict} | \
           {n: (v, (v.n, v.fn)) for n, v in state.items() if isinstance(v, seq.SymSeq)}


def _restore_lists(snap):
    for v, content in snap.values():
        if isinstance(v, list):
            list.__setitem__(v, slice(None), content)
        elif isinstance(v, dict):
            v.clear()
            v.update(content)
        else:
            v.n, v.fn = content


class PathRes:
    pass


def run_paths(k, guard, prep, body, elem, get, sett, limit=64, site=0):
    """Explore all paths of one iteration at index k from the state prepared by prep()."""
    outer = core.ctx()
    out = []
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > limit:
            raise core.PathLimit("too many paths in a loop body")
        sub = core.Ctx(prefix, outer.branch_ms)
        sub.hyps = list(outer.hyps) + [guard]
        nh = len(sub.hyps)
        sub.ufacts = list(outer.ufacts)
        sub.cands = list(outer.cands)
        for a in ("max_unroll", "while_inv", "deadline", "opts", "ghost"):
            if hasattr(outer, a):
                setattr(sub, a, getattr(outer, a))
        sub.safety = []
        sub.frame = outer.frame
        sub.log = []
        core.set_ctx(sub)
        wl = {}
        _WLOG.append(wl)
        restore = prep()
        p = PathRes()
        try:
            try:
                with core.iteration(site, k):
                    r = body(elem(k))
                p.outcome = Outcome("normal") if r is None else Outcome(r[0], r[1] if len(r) > 1 else None)
            except Infeasible:
                p = None
            except (Unsupported, AssertionError):
                raise
            except BaseException as e:
                if not isinstance(e, Exception) and not getattr(e, "__dv_fault__", False):
                    raise
                p.outcome = Outcome("raise", e)
            if p is not None:
                p.state = get()
                p.tens = {n_: (v.snapshot(), v) for n_, v in p.state.items() if isinstance(v, STensor)}
                p.written = {i: (st, st.fn) for i, (st, _) in wl.items()}
                p.lists = {n_: (v, raw(v) if isinstance(v, list) else (dict(v) if isinstance(v, dict) else (v.n, v.fn)))
                           for n_, v in p.state.items() if isinstance(v, list) or type(v) is dict or isinstance(v, seq.SymSeq)}
                p.cond = sub.hyps[nh:]
                p.taken = list(sub.taken)
                p.ctx = sub
                p.log = sub.log
                out.append(p)
        finally:
            _WLOG.pop()
            sub.death = next(core._counter)
            for st, fn in wl.values():
                if _preexisting(st, k):
                    st.fn = fn
            restore()
            core.set_ctx(outer)
        stack.extend(reversed(sub.pending))
        outer.safety.extend(sub.safety)
    return out


def _scalar_term(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, (int, float, SVal)):
        try:
            return lift(v)
        except Unsupported:
            return None
    return None


def renaming(q):
    """fresh names for the indices and witnesses of a filtered element"""
    names = {}
    for h in list(q.hyps) + terms_of(q.val):
        names.update(core.free_consts(h))
        for a in core.subterms(h):
            n = a.decl().name()
            if "!" in n and n.rsplit("!", 1)[-1].isdigit() and any(lo <= int(n.rsplit("!", 1)[-1]) < hi for lo, hi in q.births) and not n.startswith("sum!"):
                raise Unsupported("a filtered element has its own witness functions")
    ids = {k.get_id() for k in q.ks}
    out = []
    for n, t in names.items():
        if t.get_id() in ids or ("!" in n and n.rsplit("!", 1)[-1].isdigit() and any(lo <= int(n.rsplit("!", 1)[-1]) < hi for lo, hi in q.births)):
            out.append((t, fresh("e", t.sort())))
    return out


def over_filtered(it, body, get, sett):
    """a loop over a filtered sequence that itself only collects"""
    base_state = get()
    base_lists = _snapshot_lists(base_state)
    out, grown, seen = [], set(), []
    for q in it.cases:
        if not q.kept:
            out.append((q, None))
            continue
        k = fresh("it")

        def elem(_, q=q):
            for u in q.ufacts:
                core.ctx().add_ufact(u)
            for h in q.hyps:
                core.ctx().assume(h)
            return q.val
        watch = {id(v): Growing(raw(v)) for n, v in base_state.items() if isinstance(v, list)}

        def prep():
            s = dict(base_state)
            for n, v in base_state.items():
                if isinstance(v, list):
                    list.__setitem__(watch[id(v)], slice(None), base_lists[n][1])
                    s[n] = watch[id(v)]
            sett(s)
            return lambda: sett(base_state)
        for p in run_paths(k, z3.BoolVal(True), prep, body, elem, get, sett, site=k.get_id()):
            if p.outcome.kind != "normal" or p.written or p.log:
                raise Unsupported("a loop over a filtered sequence with other effects than collecting")
            seen.append(p)
            for n, v in base_state.items():
                w = p.state.get(n, MISSING)
                if isinstance(v, list):
                    if w is not watch[id(v)]:
                        raise Unsupported("list rebound in a loop over a filtered sequence")
                    if len(p.lists[n][1]) != len(base_lists[n][1]):
                        grown.add(n)
                elif w is not v:
                    t0, t1 = _scalar_term(v), _scalar_term(w)
                    if t0 is None or t1 is None or t0.get_id() != t1.get_id():
                        raise Unsupported(f"variable {n} changes in a loop over a filtered sequence")
            out.append((q, p))
    s = dict(base_state)
    for n in grown:
        if base_lists[n][1]:
            raise Unsupported("filtered elements appended to a non-empty list")
        cases = []
        for q, p in out:
            if p is None:
                cases.append(q)
                continue
            suffix = p.lists[n][1][len(base_lists[n][1]):]
            if len(suffix) > 1:
                raise Unsupported("several appends per iteration")
            cases.append(seq.FCase(q.ks, p.cond, p.ctx.ufacts[len(core.ctx().ufacts):], suffix[0] if suffix else None, bool(suffix), q.births + ((p.ctx.birth, p.ctx.death),), q.levels))
        s[n] = seq.FiltSeq(cases)
        s[n].grown_from = base_lists[n][0]
    for p in seen:
        for n in p.state:
            if n not in base_state:
                s[n] = Poison(n)
    sett(s)
    return None


def summarise(it, body, get, sett):
    if isinstance(it, seq.FiltSeq):
        return over_filtered(it, body, get, sett)
    c = core.ctx()
    base_state = get()
    base_lists = _snapshot_lists(base_state)
    k = fresh("it")
    site = k.get_id()
    guard = it.in_range(k)
    # empty range?
    if not c.entails(it.count() > 0, 400):
        pass
    havoc_st: dict[int, tuple] = {}     # id -> (storage, H function, original fn)
    havoc_sc: dict[str, tuple] = {}     # name -> (const, original value, closed form or None)
    havoc_tn: dict[str, tuple] = {}     # name -> (base tensor, H, pseudo storage): rebound tensors
    growing: dict[int, Growing] = {}    # lists the loop collects: opaque to its body

    def prep():
        saved = {}
        for i, (st, H, fn0) in havoc_st.items():
            saved[i] = (st, st.fn)
            st.fn = (lambda idx, H=H: H(*[sums.canon(x) for x in idx])) if st.dims else (lambda idx, H=H: H)
        s = dict(base_state)
        for n, (h, v0, cf) in havoc_sc.items():
            s[n] = wrap(cf(k)) if cf is not None else wrap(h)
        for n, (b, H, ps) in havoc_tn.items():
            s[n] = STensor.new([[cc.size for cc in d] for d in b._d], (lambda idx, H=H: H(*[sums.canon(x) for x in idx])) if ps.dims else (lambda idx, H=H: H), b.dtype, b.device)
        for n, (v, content) in base_lists.items():
            if id(v) in growing and isinstance(v, list):
                list.__setitem__(growing[id(v)], slice(None), content)
                s[n] = growing[id(v)]
        sett(s)
        _restore_lists(base_lists)

        def restore():
            for st, fn in saved.values():
                st.fn = fn
            sett(base_state)
            _restore_lists(base_lists)
        return restore

    nsafe = len(c.safety)
    for rnd in range(6):
        del c.safety[nsafe:]
        paths = run_paths(k, guard, prep, body, it.elem, get, sett, site=site)
        paths = [p for p in paths if p.outcome is not None]
        again = False
        base_ids = set(havoc_st)
        for p in paths:
            if p.outcome.kind not in ("normal", "break"):
                continue
            for i, (st, fn) in p.written.items():
                if i in havoc_st or not _preexisting(st, k):
                    continue
                srt = {"f": R, "i": I, "b": B}[_kind(st)]
                H = core.fresh_fn("H", len(st.dims), srt) if st.dims else fresh("H", srt)
                havoc_st[i] = (st, H, st.fn)
                again = True
            for n, v in p.state.items():
                b = base_state.get(n, MISSING)
                if v is b or n in havoc_sc:
                    continue
                if b is MISSING or isinstance(b, Poison):
                    continue
                if isinstance(b, STensor) and isinstance(v, STensor) and n not in havoc_tn and not b.masks and not v.masks:
                    if v.st is b.st and v._d is b._d:
                        continue
                    if len(v.flatcomps()) != len(b.flatcomps()):
                        continue
                    dims = [cc.size for cc in b.flatcomps()]
                    srt = {"f": R, "i": I, "b": B}[b.dtype.kind]
                    H = core.fresh_fn("H", len(dims), srt) if dims else fresh("H", srt)
                    havoc_tn[n] = (b, H, Storage(dims, b.snapshot()))
                    again = True
                    continue
                tb, tv = _scalar_term(b), _scalar_term(v)
                if tb is None or tv is None:
                    continue
                if tb.sort() == tv.sort() and sums.canon(tb).get_id() == sums.canon(tv).get_id():
                    continue
                srt = tb.sort() if tb.sort() == tv.sort() else R
                havoc_sc[n] = (fresh("h_" + n, srt), b, None)
                again = True
        if not again:
            # closed forms for scalar induction variables
            for n, (h, v0, cf) in list(havoc_sc.items()):
                if cf is not None:
                    continue
                ds = []
                for p in paths:
                    if p.outcome.kind != "normal":
                        continue
                    v = p.state.get(n)
                    tv = _scalar_term(v)
                    if tv is None:
                        ds.append(None)
                        continue
                    tv = toreal(tv) if h.sort() == R else tv
                    d = sums.canon(tv - h) if h.sort() != B else None
                    ds.append(d)
                if ds and all(d is not None and not core.occurs(h, d) and not core.occurs(k, d) for d in ds) and \
                        len({d.get_id() for d in ds}) == 1 and not _mentions_new(ds[0], paths):
                    d = ds[0]
                    t0 = lift(v0)
                    t0 = toreal(t0) if h.sort() == R else t0
                    havoc_sc[n] = (h, v0, lambda kk, t0=t0, d=d: sums.canon(t0 + (toreal(kk) if t0.sort() == R else kk) * d))
                    again = True
        if not again:
            for n, (v, content) in base_lists.items():
                if isinstance(v, list) and id(v) not in growing and any(n in p.lists and (len(p.lists[n][1]) != len(content) if p.lists[n][0] is v else getattr(p.state[n], "grown_from", None) is v) for p in paths):
                    growing[id(v)] = Growing()
                    again = True
        if not again:
            break
    else:
        raise Unsupported("loop state does not stabilise")
    if not paths:
        # no feasible iteration: the range is empty
        c.assume(it.count() <= 0)
        return None
    exits = [p for p in paths if p.outcome.kind != "normal"]
    normal = [p for p in paths if p.outcome.kind == "normal"]
    # list growth
    appended = {}
    for n, (v, content) in base_lists.items():
        grow = None
        mine = growing.get(id(v), v)
        for p in normal:
            w = p.state.get(n)
            if isinstance(w, seq.SymSeq) and getattr(w, "grown_from", None) is mine and w is not v:
                if content:
                    raise Unsupported("an inner loop appends to a non-empty list")
                grow = "some"
                continue
            if n not in p.lists or p.lists[n][0] is not mine:
                # rebound list variable
                if id(v) in growing:
                    raise Unsupported("a collected list is rebound")
                continue
            now = p.lists[n][1]
            if isinstance(v, list):
                if len(now) == len(content) and all(a is b for a, b in zip(now, content)):
                    g = 0
                elif len(now) == len(content) + 1 and all(a is b for a, b in zip(now, content)):
                    g = 1
                else:
                    raise Unsupported("list modified in a symbolic loop other than by one append")
            elif isinstance(v, dict):
                if len(now) != len(content) or any(now.get(x, MISSING) is not content[x] for x in content):
                    raise Unsupported("dict modified in a symbolic loop")
                g = 0
            else:
                if now[1] is content[1]:
                    g = 0
                else:
                    raise Unsupported("symbolic list modified in a symbolic loop")
            if grow is None:
                grow = g
            elif grow != g:
                grow = "some"
        if grow == "some" and (content or exits or not isinstance(v, list)):
            raise Unsupported("conditional append in a symbolic loop")
        if grow:
            appended[n] = (v, grow)
    # --- storages
    deltas = {}
    for i, (st, H, fn0) in havoc_st.items():
        deltas[i] = _summarise_storage(st, H, fn0, normal, k, guard, it, exits)
    tdeltas = {}
    for n, (b, H, ps) in havoc_tn.items():
        ok = all(isinstance(p.state.get(n), STensor) and p.state[n].dtype is b.dtype for p in normal)
        if not ok:
            continue
        try:
            tdeltas[n] = _summarise_storage(ps, H, ps.fn, normal, k, guard, it, exits, name=n)
        except Unsupported:
            pass
    # --- scalars
    scal = {}
    for n, (h, v0, cf) in havoc_sc.items():
        if cf is not None:
            scal[n] = ("closed", cf)
            continue
        try:
            scal[n] = _summarise_scalar(n, h, v0, normal, k, guard)
        except Unsupported:
            scal[n] = ("poison", None)
    names = {h.decl().name() for h, v0, cf in havoc_sc.values() if cf is None}
    names |= {H.decl().name() if isinstance(H, z3.ExprRef) else H.name() for st, H, fn0 in havoc_st.values()}
    names |= {H.decl().name() if isinstance(H, z3.ExprRef) else H.name() for b, H, ps in havoc_tn.values()}
    logs = [e for p in normal for e in p.log]
    for e in logs:
        c.log.append(("loop", e))

    def state_at(bound):
        """install state after all iterations j with guard(j) and (bound is None or j < bound)"""
        for i, (st, H, fn0) in havoc_st.items():
            st_fn = deltas[i](bound)
            note_write(st)
            st.fn = memo(guarded(st_fn, names))
        s = dict(base_state)
        for n in get_names(paths, base_state):
            if n in scal:
                kind = scal[n][0]
                if kind == "closed":
                    cnt = bound if bound is not None else it.count()
                    s[n] = wrap(scal[n][1](cnt))
                elif kind == "poison":
                    s[n] = Poison(n)
                else:
                    v = scal[n][1](bound)
                    s[n] = Poison(n) if mentions(names, v) else wrap(v)
            elif n in appended:
                pass
            elif n in tdeltas:
                b = havoc_tn[n][0]
                s[n] = STensor.new([[cc.size for cc in d] for d in b._d], guarded(tdeltas[n](bound), names), b.dtype, b.device)
            else:
                vals = [p.state.get(n, MISSING) for p in normal]
                b = base_state.get(n, MISSING)
                if all(v is b for v in vals):
                    continue
                if b is not MISSING and _scalar_term(b) is not None and n not in scal and \
                        all(_scalar_term(v) is not None and sums.canon(_scalar_term(v)).get_id() == sums.canon(_scalar_term(b)).get_id() for v in vals):
                    continue
                if b is not MISSING and isinstance(b, STensor) and all(isinstance(v, STensor) and v.st is b.st for v in vals):
                    continue
                s[n] = Poison(n)
        for n, (v, grow) in appended.items():
            cnt = bound if bound is not None else it.count()
            p0 = normal
            if grow == "some":
                s[n] = filtered(n, v)
                continue
            if len(p0) != 1 and not _same_append(p0, n):
                raise Unsupported("append differs between paths")
            e = p0[0].lists[n][1][-1]
            for p in p0:
                _check_no_fresh(e, p)
            e = _guard_value(e, names)
            s[n] = seq.as_symseq(list(base_lists[n][1])) + seq.SymSeq(wrap(cnt), lambda j, e=e: subst_value(e, [(k, j)])) \
                if base_lists[n][1] else seq.SymSeq(wrap(cnt), lambda j, e=e: subst_value(e, [(k, j)]))
            s[n].grown_from = v
        sett(s)

    def filtered(n, v):
        mine = growing.get(id(v), v)
        cases = []
        for p in normal:
            w = p.state[n]
            hyps = [guard] + list(p.cond)
            uf = p.ctx.ufacts[len(c.ufacts):]
            born = ((p.ctx.birth, p.ctx.death),)
            top = [((k,), [], [], guard)]
            if isinstance(w, seq.FiltSeq):
                for q in w.cases:
                    cases.append(seq.FCase((k,) + q.ks, hyps + q.hyps, uf + q.ufacts, q.val, q.kept, born + q.births, top + [((k,) + a, hyps + b, uf + u, g) for a, b, u, g in q.levels]))
            elif isinstance(w, seq.SymSeq):
                k2 = fresh("it")
                cases.append(seq.FCase((k, k2), hyps + [w.in_range(k2)], uf, w.elem(k2), True, born, top + [((k, k2), hyps, uf, w.in_range(k2))]))
            else:
                suffix = p.lists[n][1][len(base_lists[n][1]):]
                cases.append(seq.FCase((k,), hyps, uf, suffix[0] if suffix else None, bool(suffix), born, top))
        for q in cases:
            if any(mentions(names, h) for h in q.hyps):
                raise Unsupported("whether an element is kept depends on an unsummarised loop-carried value")
            if q.kept:
                q.val = _guard_value(q.val, names)
        r = seq.FiltSeq(cases)
        r.grown_from = v
        return r

    if exits:
        exit_taken = c.decide(None, "loop exits early")
        if exit_taken:
            k0 = fresh("exit")
            g0 = it.in_range(k0)
            c.assume(g0)
            c.add_ufact(core.UFact(1, _normal_fact(it, normal, exits, k, lambda j: z3.And(j >= 0, j < k0), names)))
            state_at(k0)
            try:
                with core.iteration(site, k0):
                    r = body(it.elem(k0))
            except (Unsupported, Infeasible):
                raise
            if r is None:
                raise Infeasible()
            return r
        c.add_ufact(core.UFact(1, _normal_fact(it, normal, exits, k, lambda j: it.in_range(j), names)))
    state_at(None)
    return None


def get_names(paths, base):
    names = set()
    for p in paths:
        names |= set(p.state)
    return sorted(names)


def _guard_value(v, names):
    """values appended in the loop may not depend on unsummarised loop-carried values"""
    if isinstance(v, SVal):
        if mentions(names, v.t):
            raise Unsupported("appended value depends on an unsummarised loop-carried value")
        return v
    if isinstance(v, STensor):
        if not names or v.masks:
            return v
        return STensor.new([[c.size for c in d] for d in v._d], guarded(v.snapshot(), names), v.dtype, v.device)
    if isinstance(v, tuple) and not hasattr(v, "_fields"):
        return tuple(_guard_value(x, names) for x in v)
    if isinstance(v, list):
        return [_guard_value(x, names) for x in v]
    if isinstance(v, dict):
        return {a: _guard_value(x, names) for a, x in v.items()}
    return v


def _normal_fact(it, normal, exits, k, rng, names=()):
    """forall j in rng: iteration j did not exit.  Expressed when the path conditions have no fresh witnesses."""
    nc = []
    ok = True
    for p in normal:
        cs = [x for x in p.cond if not _fresh_in(x, p, k) and not mentions(names, x)]
        if len(cs) != len(p.cond):
            ok = False
        nc.append(mkand(*cs))
    t = mkor(*nc) if nc else z3.BoolVal(False)
    return lambda j: z3.Implies(rng(j), z3.substitute(t, (k, j)))


def _kind(st):
    ph = [fresh("ph") for _ in st.dims]
    s = st.fn(ph).sort()
    return "f" if s == R else ("i" if s == I else "b")


def _preexisting(st, k):
    """Storage created before the loop: its content and dims do not depend on the iteration and it is registered old."""
    return getattr_created(st) < getattr_mark(k)


_created = {}


def getattr_created(st):
    return st.serial


def getattr_mark(k):
    return int(k.decl().name().split("!")[-1])


def _mentions_new(t, paths):
    return any(_fresh_in(t, p, None) for p in paths)


def _fresh_in(t, p, k):
    """Constants created while the body ran (path witnesses) occurring in t."""
    for n in core.free_consts(t):
        if "!" in n and n.rsplit("!", 1)[-1].isdigit():
            if int(n.rsplit("!", 1)[-1]) >= p.ctx.birth and not (k is not None and n == k.decl().name()):
                return True
    for a in core.subterms(t):
        n = a.decl().name()
        if "!" in n and not n.startswith("sum!") and not n.startswith("enum!") and not n.startswith("draw:") and n.rsplit("!", 1)[-1].isdigit() and \
                int(n.rsplit("!", 1)[-1]) >= p.ctx.birth:
            return True
    return False


def _check_no_fresh(v, p):
    for t in terms_of(v):
        if _fresh_in(t, p, None):
            raise Unsupported("value depends on a path witness of the loop body")


def terms_of(v):
    if isinstance(v, SVal):
        return [v.t]
    if isinstance(v, strs.SStr):
        return [v.t]
    if type(v).__name__ == "Text":
        return [t for x in v.parts for t in terms_of(x)]
    if isinstance(v, STensor):
        idx = [fresh("z") for _ in v.flatcomps()]
        return []   # checked lazily
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in terms_of(x)]
    if isinstance(v, dict):
        return [t for x in v.values() for t in terms_of(x)]
    if hasattr(v, "__dataclass_fields__") and not isinstance(v, type):
        return [t for n in v.__dataclass_fields__ for t in terms_of(getattr(v, n))]
    if hasattr(v, "__dv_terms__"):
        return v.__dv_terms__()
    return []


def subst_value(v, pairs):
    if isinstance(v, SVal):
        return wrap(z3.substitute(v.t, *pairs))
    if isinstance(v, STensor):
        fn, nf = v.snapshot(), v.nf_snapshot()
        # index terms may mention the substituted constants: route through fresh placeholders
        def f(idx, fn=fn):
            ph = [fresh("ph") for _ in idx]
            t = fn(ph)
            t = z3.substitute(t, *pairs)
            return z3.substitute(t, *zip(ph, idx)) if idx else t
        dims = [[z3.substitute(c.size, *pairs) for c in d] for d in v._d]
        if v.masks:
            raise Unsupported("masked value in a symbolic list")
        return STensor.new(dims, f, v.dtype, v.device)
    if isinstance(v, list):
        return [subst_value(x, pairs) for x in v]
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[subst_value(x, pairs) for x in v])
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs) for x in v)
    if isinstance(v, dict):
        return {a: subst_value(x, pairs) for a, x in v.items()}
    if isinstance(v, strs.SStr):
        return strs.SStr(z3.substitute(v.t, *pairs))
    if type(v).__name__ == "Text":
        return type(v)([subst_value(x, pairs) for x in v.parts])
    if v is None or isinstance(v, (int, float, str, bytes)):
        return v
    if isinstance(v, seq.SymSeq):
        return seq.SymSeq(wrap(z3.substitute(v.n, *pairs)), lambda j, v=v: subst_value(v.fn(j), pairs))
    if hasattr(v, "__dataclass_fields__"):
        import copy
        w = copy.copy(v)
        for n in v.__dataclass_fields__:
            object.__setattr__(w, n, subst_value(getattr(v, n), pairs))
        return w
    if hasattr(v, "__dv_subst__"):
        return v.__dv_subst__(pairs)
    return v


def _same_append(ps, n):
    vals = [p.lists[n][1][-1] for p in ps]
    ts = [terms_of(v) for v in vals]
    return all(len(t) == len(ts[0]) and all(a.get_id() == b.get_id() for a, b in zip(t, ts[0])) for t in ts) and \
        all(isinstance(v, SVal) for v in vals)


def _align(t, Happ, H, cond):
    """Under cond (which may fix the written cell), rewrite H(args) with args equal to the cell into Happ."""
    if isinstance(H, z3.ExprRef):
        return t
    n = H.name()
    eqs = []
    for x in sums.conj(cond):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EQ and x.arg(0).sort() == I:
            eqs.append(sums.padd(sums.poly(x.arg(0)), sums.poly(x.arg(1)), -1))
    if not eqs:
        return t
    pairs = []
    for a in core.subterms(t):
        if a.decl().name() != n or a.get_id() == Happ.get_id():
            continue
        ok = True
        for u, v in zip(a.children(), Happ.children()):
            d = sums.padd(sums.poly(u), sums.poly(v), -1)
            if d and not any(d == e or not sums.padd(d, e) for e in eqs):
                ok = False
                break
        if ok:
            pairs.append((a, Happ))
    return z3.substitute(t, *pairs) if pairs else t


def _leaf_diff(t, Happ, H):
    """(delta, overwritten?) of content t against H(idx): ITE-structured."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.sort() != B and not t.get_id() == Happ.get_id():
        c, a, b = t.children()
        if occursH(H, c):
            raise Unsupported("loop condition depends on the accumulated content")
        return ("if", c, _leaf_diff(_align(a, Happ, H, c), Happ, H), _leaf_diff(b, Happ, H))
    if t.get_id() == Happ.get_id():
        return ("keep",)
    ct = sums.canon(t)
    if t.sort() == R or t.sort() == I:
        d = sums.canon(t - Happ)
        if not occursH(H, d):
            return ("add", d)
    if not occursH(H, ct):
        return ("set", ct)
    # push arithmetic below conditionals
    t2 = _lift_ite(ct, H)
    if t2 is not None and t2.get_id() != t.get_id():
        return _leaf_diff(t2, Happ, H)
    raise Unsupported("loop-carried content is not an accumulation")


def _lift_ite(t, H):
    """c + If(x, a(H), b(H)) -> If(x, c + a, c + b) (single level)"""
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
        ch = t.children()
        for i, x in enumerate(ch):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and occursH(H, x):
                mk = lambda y: t.decl()(*(ch[:i] + [y] + ch[i + 1:]))
                return z3.If(x.arg(0), mk(x.arg(1)), mk(x.arg(2)))
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB) and occursH(H, x):
                y = _lift_ite(x, H)
                if y is not None:
                    mk = lambda z: t.decl()(*(ch[:i] + [z] + ch[i + 1:]))
                    return z3.If(y.arg(0), mk(y.arg(1)), mk(y.arg(2)))
    return None


def occursH(H, t):
    n = H.decl().name() if isinstance(H, z3.ExprRef) else H.name()
    if isinstance(H, z3.ExprRef):
        return core.occurs(H, t)
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().name() == n:
                return True
            if sums.is_sum(x):
                d = sums.SUMS[x.decl().name()]
                stack += [d.guard, d.body]
            stack.extend(x.children())
    return False


_MENT = {}


def mentions(names, t):
    """does t mention a constant or function with one of these names (bodies of sums included)?"""
    if not names:
        return False
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                return True
            if sums.is_sum(x):
                d = sums.SUMS[x.decl().name()]
                stack += [d.guard, d.body]
            stack.extend(x.children())
    return False


def guarded(fn, names):
    """content of a summarised loop must not depend on values the summary could not express"""
    if not names:
        return fn

    def g(idx):
        r = fn(idx)
        if mentions(names, r):
            raise Unsupported("loop result depends on an unsummarised loop-carried value")
        return r
    return g


def _only_add(tree):
    if tree[0] in ("keep", "add"):
        return True
    if tree[0] == "if":
        return _only_add(tree[2]) and _only_add(tree[3])
    return False


def _add_term(tree, zero):
    if tree[0] == "keep":
        return zero
    if tree[0] == "add":
        return tree[1]
    return mkif(tree[1], _add_term(tree[2], zero), _add_term(tree[3], zero))


def _sets(tree, cond=()):
    """list of (conditions, value) leaves that overwrite; 'add' leaves are reported as None value"""
    if tree[0] == "keep":
        return []
    if tree[0] == "set":
        return [(list(cond), tree[1])]
    if tree[0] == "add":
        return [(list(cond), None)]
    return _sets(tree[2], list(cond) + [tree[1]]) + _sets(tree[3], list(cond) + [sums.canonb(z3.Not(tree[1]))])


def _summarise_storage(st, H, fn0, normal, k, guard, it, exits, name=None):
    """returns bound -> content function after the iterations"""
    # obtain per-path trees at generic index
    idx = [ZERO if z3.is_int_value(d) and d.as_long() == 1 else fresh("cell") for d in st.dims]
    Happ = H(*idx) if st.dims else H
    pairs_of = lambda ix: [(a, b) for a, b in zip(idx, ix) if a is not ZERO]
    trees = []
    for p in normal:
        if name is not None or id(st) in p.written:
            fn = p.tens[name][0] if name is not None else p.written[id(st)][1]
            saved = core.ctx()
            core.set_ctx(p.ctx)
            try:
                t = fn(idx)
            finally:
                core.set_ctx(saved)
            trees.append((p, _leaf_diff(t, Happ, H)))
        else:
            trees.append((p, ("keep",)))
    additive = all(_only_add(t) for _, t in trees)
    rngs = [z3.And(i >= 0, i < s) for i, s in zip(idx, st.dims)]
    if additive and Happ.sort() in (R, I):
        zero = z3.RealVal(0) if Happ.sort() == R else z3.IntVal(0)
        terms = [(p, sums.canon(_add_term(t, zero))) for p, t in trees]
        D = _unify(terms, k, rngs, zero)
        if _occurs_any_fresh(D, normal, k, idx):
            raise Unsupported("accumulated value depends on a path witness")
        if Happ.sort() == I:
            raise Unsupported("integer accumulation in a symbolic loop")

        def after(bound):
            def fn(ix):
                kk = fresh("k")
                d = z3.substitute(D, *(pairs_of(ix) + [(k, kk)]))
                g = it.in_range(kk)
                if bound is not None:
                    g = z3.And(g, kk < bound)
                return fn0(ix) + sums.mk_sum([kk], g, d)
            return fn
        return after
    # slot writes
    leaves = []
    for p, t in trees:
        if len(trees) > 1 and any(_fresh_in(x, p, k) for x in p.cond):
            raise Unsupported("slot write under a path witness")
        for conds, val in _sets(t):
            leaves.append(((list(p.cond) if len(trees) > 1 else []) + conds, val, p))
    kappa = None
    for conds, val, p in leaves:
        got = None
        for cd in conds:
            for x in sums.conj(cd):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EQ and x.arg(0).sort() == I:
                    pl = sums.padd(sums.poly(x.arg(0)), sums.poly(x.arg(1)), -1)
                    kid = (k.get_id(),)
                    if pl.get(kid) in (1, -1) and not any(k.get_id() in m for m in pl if m != kid):
                        rest = sums.padd(pl, {kid: pl[kid]}, -1)
                        got = sums.build(sums.padd({}, rest, -pl[kid]), I)
        if got is None:
            raise Unsupported("a written slot is not determined by the iteration")
        got = sums.canon(got)
        if kappa is None:
            kappa = got
        elif sums.canon(kappa - got).get_id() != sums.canon(z3.IntVal(0)).get_id():
            raise Unsupported("several slots per iteration")
    # an 'add' leaf at a determined slot is a set to fn0(cell)+d
    def after(bound):
        def fn(ix):
            sub = pairs_of(ix)
            kk = z3.substitute(kappa, *sub)
            r = fn0(ix)
            g0 = it.in_range(kk)
            if bound is not None:
                g0 = z3.And(g0, kk < bound)
            base = r
            for (conds, val, p), (_, tree) in zip(leaves, [None] * 0 or [(None, None)] * len(leaves)):
                pass
            for conds, val, p in leaves:
                if val is None:
                    raise Unsupported("accumulation into slots mixed with overwriting")
                cnd = mkand(*[z3.substitute(x, *(sub + [(k, kk)])) for x in conds])
                v = z3.substitute(val, *(sub + [(k, kk)]))
                r = mkif(sums.canonb(z3.And(g0, cnd)), v, r)
            return r
        return fn
    return after


def _occurs_any_fresh(D, normal, k, idx):
    names = {i.decl().name() for i in idx if i is not ZERO}
    for p in normal:
        for n in core.free_consts(D):
            if n in names or n == k.decl().name():
                continue
            if "!" in n and n.rsplit("!", 1)[-1].isdigit() and p.ctx.birth <= int(n.rsplit("!", 1)[-1]) < p.ctx.death:
                return True
    return False


def _unify(terms, k, rngs, zero):
    """combine per-path deltas into one expression"""
    if len(terms) == 1:
        return terms[0][1]
    reps = []      # (delta, [paths])
    for p, d in sorted(terms, key=lambda z: -len(str(z[1]))):
        hit = None
        for rep in reps:
            if rep[0].get_id() == d.get_id():
                hit = rep
                break
            # under p's hypotheses, does the representative equal d?
            pr = sums.Prover(p.ctx, ms=4000, budget=30)
            saved = core.ctx()
            core.set_ctx(p.ctx)
            try:
                ok = pr.prove_eq(rep[0], d, rngs) if d.sort() == R else pr.valid(rep[0] == d, rngs)
            finally:
                core.set_ctx(saved)
            if ok:
                hit = rep
                break
        if hit is None:
            reps.append([d, [p]])
        else:
            hit[1].append(p)
    if len(reps) == 1:
        return reps[0][0]
    out = reps[0][0]
    for d, ps in reps[1:]:
        cs = []
        for p in ps:
            if any(_fresh_in(x, p, k) for x in p.cond):
                raise Unsupported("path condition mentions a witness")
            cs.append(mkand(*p.cond))
        out = mkif(mkor(*cs), d, out)
    return out


def _summarise_scalar(n, h, v0, normal, k, guard):
    if h.sort() == B:
        raise Unsupported(f"boolean loop-carried variable {n}")
    terms = []
    for p in normal:
        tv = _scalar_term(p.state.get(n))
        if tv is None:
            raise Unsupported(f"loop-carried variable {n}")
        tv = toreal(tv) if h.sort() == R else tv
        tree = _leaf_diff(tv, h, h)
        if not _only_add(tree):
            raise Unsupported(f"loop-carried variable {n} is not an accumulation")
        terms.append((p, sums.canon(_add_term(tree, z3.RealVal(0) if h.sort() == R else z3.IntVal(0)))))
    D = _unify(terms, k, [], None)
    if h.sort() == I:
        raise Unsupported("integer accumulation in a symbolic loop")
    t0 = toreal(lift(v0))

    def fin(bound):
        kk = fresh("k")
        g = z3.substitute(guard, (k, kk))
        if bound is not None:
            g = z3.And(g, kk < bound)
        return t0 + sums.mk_sum([kk], g, z3.substitute(D, (k, kk)))
    return ("sum", fin)


# --------------------------------------------------------------------------- comprehensions
def comp(kind, it, elt, conds):
    if type(it) is list and any(type(e).__name__ == "Splice" for e in it):
        from . import text
        it = text.unsplice(it)
    if not seq.is_symbolic(it):
        out = [elt(x) for x in it if all(bool(cn(x)) for cn in conds)]
        if kind == "set":
            return set(out)
        if kind == "dict":
            return dict(out)
        return out
    if kind == "dict":
        raise Unsupported(f"{kind} comprehension over a symbolic sequence")
    s = it if isinstance(it, seq.SymIter) else seq.as_symseq(it)
    if conds or isinstance(s, seq.FiltSeq):
        if kind == "set":
            raise Unsupported("filtered set comprehension over a symbolic sequence")
        st = {"kept": []}

        def body(x):
            if all(bool(cn(x)) for cn in conds):
                st["kept"].append(elt(x))

        def put(d):
            st.clear()
            st.update(d)
        r = summarise(s, body, lambda: dict(st), put)
        return st["kept"]
    n = s.count()
    site = fresh("comp").get_id()

    def el(k):
        with core.iteration(site, k):
            return elt(s.elem(k))
    r = seq.SymSeq(wrap(n), el, rng=s.in_range)
    return seq.SymSet(r) if kind == "set" else r
