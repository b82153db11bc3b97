"""Path exploration of contract cases and discharge of the obligations they generate."""
from __future__ import annotations
import contextlib
import json, os, re, sys, time, traceback, multiprocessing as mp, ast, hashlib
import z3
from . import core, sums, seq, loops, loader, tensor as T, shim_torch, shim_math, builtins_shim, shim_more
from .core import I, R, B, SVal, SInt, SReal, SBool, wrap, lift, mkand, mkor, fresh, Unsupported, Infeasible, toreal, UFact
from .tensor import STensor


class _Lru:
    """functools.lru_cache / cache on a repository function: the memo obligations of CacheDict on every call"""

    def __init__(self, f):
        self.f, self.d = f, None
        self.__name__ = getattr(f, "__name__", "cached")
        self.__wrapped__ = f

    def __get__(self, o, t=None):
        if o is None:
            return self
        import functools
        return functools.partial(self, o)

    def __call__(self, *a, **k):
        v = self.f(*a, **k)
        d = CacheDict("memo of " + self.__name__)
        key = tuple(a) + tuple(k.values())
        for x in key:
            if isinstance(x, STensor):
                core.ctx().oblige("cache memo of " + self.__name__ + ": keyed by a tensor's identity", z3.BoolVal(False))
        d[key] = v
        return v

    def cache_clear(self):
        pass


class _Functools:
    def __getattr__(self, n):
        import functools
        return getattr(functools, n)

    def lru_cache(self, f=None, maxsize=128, typed=False):
        if callable(f):
            return _Lru(f)
        return lambda g: _Lru(g)

    def cache(self, f):
        return _Lru(f)


class CacheDict(dict):
    """Module-level memo dictionaries: every lookup may find any earlier entry, so an entry must be determined by its
    key alone; then a hit returns what a miss would compute, and only the miss needs to be followed."""

    def __init__(self, name):
        super().__init__()
        self.name = name

    def get(self, k, d=None):
        return d

    def __contains__(self, k):
        return False

    def __getitem__(self, k):
        raise KeyError(k)

    def setdefault(self, k, v=None):
        self[k] = v
        return v

    def clear(self):
        pass

    def pop(self, k, *d):
        if d:
            return d[0]
        raise Unsupported(f"{self.name}: pop")

    def _no(self, *a, **k):
        raise Unsupported(f"{self.name}: this use of a module-level dictionary")
    popitem = update = items = keys = values = __iter__ = __ior__ = __delitem__ = __reversed__ = _no

    def __bool__(self):
        return core.ctx().branch(z3.FreshBool()) if False else bool(wrap(fresh("entries")) > 0)

    def __len__(self):
        raise Unsupported(f"{self.name}: number of entries")

    def __setitem__(self, k, v):
        c = core.ctx()
        ks = list(k) if isinstance(k, tuple) else [k]
        consts, other = set(), []
        for x in ks:
            if isinstance(x, SVal):
                t = x.t
                if z3.is_app(t) and t.num_args() == 0:
                    consts.add(t.decl().name())
                else:
                    raise Unsupported(f"{self.name}: derived cache key")
            else:
                other.append(x)
        vals = v if isinstance(v, (tuple, list)) else [v]
        for w in vals:
            if isinstance(w, STensor):
                ph = [fresh("ph") for _ in w.flatcomps()]
                names = {p.decl().name() for p in ph}
                used = set(core.free_consts(w.snapshot()(ph))) - names
                for cc in w.flatcomps():
                    used |= set(core.free_consts(cc.size))
                used -= {"PI"}
                bad = used - consts
                c.oblige(f"cache {self.name}: entry depends only on its key", z3.BoolVal(not bad))
                has_dev = any(isinstance(x, T.Device) and x == w.device or isinstance(x, str) and x == str(w.device) for x in other)
                c.oblige(f"cache {self.name}: key names the device", z3.BoolVal(has_dev))
                if w.dtype.kind == "f":
                    c.oblige(f"cache {self.name}: key names the dtype", z3.BoolVal(any(x is w.dtype or x == str(w.dtype) for x in other)))
                w.st.frozen = True
                w.st.name = f"cached value of {self.name}"
            elif callable(w):
                _closure_ok(self.name, w, ks)
            elif isinstance(w, SVal):
                bad = set(core.free_consts(w.t)) - consts
                c.oblige(f"cache {self.name}: entry depends only on its key", z3.BoolVal(not bad))
            elif isinstance(w, (int, float, str, bool, type(None))):
                pass
            else:
                raise Unsupported(f"cache of {type(w).__name__}")


def _closure_ok(name, f, ks):
    """A cached function may capture only values listed in the key (or derived module-level definitions)."""
    c = core.ctx()
    for cell in (getattr(f, "__closure__", None) or ()):
        v = cell.cell_contents
        ok = any(v is k or (isinstance(v, SVal) and isinstance(k, SVal) and v.t.get_id() == k.t.get_id()) or
                 (not isinstance(v, (SVal, STensor)) and not isinstance(k, (SVal, STensor)) and type(v) is type(k) and v == k) or
                 (isinstance(v, T.Device) and k == str(v)) for k in ks) or (callable(v) and not hasattr(v, "__closure__"))
        c.oblige(f"cache {name}: the cached function captures only its key", z3.BoolVal(bool(ok)))


SHIMS = {}


def _random_module():
    """the random module: its own functions use the process-wide generator"""
    import random as _r

    class Random(_r.Random):
        def __init__(self, x=None):
            if x is None:
                core.ctx().log.append(("global_rng", "random.Random() without a seed"))
            super().__init__(x)

    class M:
        pass
    m = M()
    m.__name__ = "random"
    m.Random = Random

    def use(n):
        def f(*a, **k):
            core.ctx().log.append(("global_rng", "random." + n))
            raise Unsupported(f"random.{n}")
        return f
    for n in dir(_r):
        if not n.startswith("_") and callable(getattr(_r, n)) and n != "Random":
            setattr(m, n, use(n))
    return m


def base_shims():
    s = dict(shim_torch.MODULES)
    s["math"] = shim_math.math
    s["random"] = _random_module()
    s["functools"] = _Functools()
    s.update(SHIMS)
    return s


class Loader(loader.Loader):
    _code = {}

    def load(self, name):
        fresh_mod = name not in self.modules
        m = super().load(name)
        if fresh_mod:
            for k, v in list(vars(m).items()):
                if type(v) is dict and not k.startswith("__") and (len(v) == 0):
                    m.__dict__[k] = CacheDict(f"{name}.{k}")
        return m


_DV = os.path.dirname(os.path.abspath(__file__))


def check_modelled(e):
    """An error of the framework, or a library feature without a contract, is not behaviour of the code."""
    if isinstance(e, z3.Z3Exception):
        raise Unsupported(f"z3: {e}") from e
    tb = traceback.extract_tb(e.__traceback__)
    inner = tb[-1].filename if tb else ""
    if isinstance(e, TypeError) and re.search(r"unexpected keyword argument|positional argument|multiple values for", str(e)):
        raise Unsupported(f"call form not modelled: {e}") from e
    if isinstance(e, (AttributeError, NameError, AssertionError, NotImplementedError, ImportError)):
        if inner.startswith(_DV):
            raise Unsupported(f"framework: {type(e).__name__}: {e} at {[f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb][-5:]}") from e
        if isinstance(e, (AttributeError, ImportError)) and ("module '" in str(e) or "No module" in str(e) or "cannot import" in str(e) or "STensor" in str(e) or "SInt" in str(e)
                                                             or "SReal" in str(e) or "SymSeq" in str(e)):
            raise Unsupported(f"not modelled: {e}") from e


class Failure:
    def __init__(self, kind, label, detail="", model=None):
        self.kind, self.label, self.detail, self.model = kind, label, detail, model


class Path:
    """Environment of one symbolic execution path."""

    def __init__(self, case, ctx, opts):
        self.case, self.ctx, self.opts = case, ctx, opts
        self.results = []          # dicts
        self.shims = base_shims()
        self._ld = None
        self.hints = {}            # name -> python/symbolic value (inputs, for replay)

    # modules
    @property
    def ld(self):
        if self._ld is None:
            self._ld = Loader(self.shims)
        return self._ld

    def mod(self, name):
        return self.ld.load(name)

    def fn(self, spec):
        """'torchrir.signal.static:fft_convolve' (existence is an obligation)"""
        m, _, q = spec.partition(":")
        o = self.mod(m)
        for part in q.split("."):
            o = getattr(o, part)
        return o

    def stub(self, name, spec, where=()):
        """Replace every binding of torchrir function `name` in the loaded modules by its contract `spec(real)`."""
        n = 0
        for mn, m in list(self.ld.modules.items()):
            f = m.__dict__.get(name)
            if f is not None and callable(f) and not getattr(f, "__dv_stub__", False):
                g = spec(f)
                g.__dv_stub__ = True
                m.__dict__[name] = g
                n += 1
        return n

    # inputs
    def int(self, name, lo=None, hi=None):
        v = core.sint(name, lo, hi)
        self.hints[name] = v
        return v

    def real(self, name, pos=False, nonneg=False):
        v = core.sreal(name, pos, nonneg)
        self.hints[name] = v
        return v

    def ext(self, name):
        """a float that may be NaN or infinite"""
        v = core.sext(name)
        self.hints[name] = v
        return v

    def tensor_const(self, v, dtype=None):
        from . import shim_torch
        return shim_torch.torch.tensor(v, dtype=dtype)

    @contextlib.contextmanager
    def given(self, *hyps):
        """hypotheses for the statements inside only; yields False when the path excludes them (nothing to show)"""
        c = self.ctx
        if c.check([z3.And(*hyps)], c.branch_ms) == z3.unsat:
            yield False
            return
        n = len(c.hyps)
        c.hyps.extend(hyps)
        try:
            yield True
        finally:
            del c.hyps[n:]

    def impossible(self, label, hyps=(), foralls=(), cands=()):
        """the current path contradicts hyps and foralls (each (n, fn) or (n, fn, triggers))"""
        c = self.ctx
        n = len(c.ufacts)
        for u in foralls:
            c.add_ufact(UFact(u[0], u[1], triggers=u[2] if len(u) > 2 else ()))
        try:
            return self.prove(label, z3.BoolVal(False), hyps, cands)
        finally:
            del c.ufacts[n:]

    def tensor(self, name, dims, dtype=T.float32, device="cpu", frozen=True, nonfinite=False):
        ds = [T.dterm(d) for d in dims]
        n = len(ds)
        srt = {"f": R, "i": I, "b": B}[dtype.kind]
        f = core.fresh_fn(name, n, srt) if n else fresh(name, srt)
        nf = None
        if nonfinite:
            kf = core.fresh_fn(name + "_kind", n, I) if n else fresh(name + "_kind")
            if n:
                core.AXIOMS[kf.name()] = lambda a: [a >= 0, a <= 3]
                nf = lambda idx: kf(*idx)
            else:
                self.ctx.assume(z3.And(kf >= 0, kf <= 3))
                nf = lambda idx: kf
        t = STensor.new([[d] for d in ds], (lambda idx: f(*idx)) if n else (lambda idx: f), dtype, T.as_device(device), nf=nf,
                        frozen=frozen, name=name)
        t.fun = f
        t.kfun = kf if nonfinite else None
        self.hints[name] = t
        return t

    def collects(self, make, pred, progress=None):
        """invariant of while loops that collect values: make(name)->(SymSeq, length), pred(value)->[(label, term)]"""
        P = self

        class Bag:
            def make(self, n):
                return make(n)

            def check(self, n, v, when):
                for lab, t in pred(v):
                    P.prove(f"{when}: {lab}", t)

            def progress(self, scalars, lists):
                if progress is not None:
                    progress(scalars, lists)
        self.ctx.bag = Bag()

    def assume(self, c):
        self.ctx.assume(c)

    def assume_forall(self, n, fn, triggers=()):
        self.ctx.add_ufact(UFact(n, fn, triggers=triggers))

    # running
    def call(self, f, *a, **k):
        """returns ('ok', value) or ('raise', exc)"""
        try:
            return "ok", f(*a, **k)
        except (Unsupported, Infeasible):
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:
            check_modelled(e)
            return "raise", e
        except BaseException as e:
            if not getattr(e, "__dv_fault__", False):
                raise
            return "raise", e

    # obligations
    def _rec(self, label, ok, backend, t0, detail="", model=None):
        self.results.append({"label": label, "ok": bool(ok), "backend": backend, "t": round(time.time() - t0, 3), "detail": detail,
                             "model": model})
        return ok

    def prover(self, hyps=None, ufacts=None):
        c = self.ctx
        if hyps is not None:
            c2 = core.Ctx(branch_ms=c.branch_ms)
            c2.hyps, c2.ufacts, c2.cands = list(hyps), list(ufacts), list(c.cands)
            c = c2
        return sums.Prover(c, ms=self.opts.get("ms", 10000), budget=self.opts.get("budget", 120))

    def prove(self, label, goal, hyps=(), cands=()):
        t0 = time.time()
        if isinstance(goal, SBool):
            goal = goal.t
        if isinstance(goal, bool):
            return self._rec(label, goal, "evaluation", t0, "" if goal else "the statement evaluates to False")
        if core.ctx() is not self.ctx:
            core.set_ctx(self.ctx)
        pr = self.prover()
        ok = pr.valid(goal, hyps, cands=cands)
        model = None
        detail = ""
        if not ok:
            detail, model = self.diagnose(goal, hyps, cands)
            if detail is None:      # the solver refutes the negation of the goal as written
                ok, detail = True, ""
        return self._rec(label, ok, "z3", t0, detail, model)

    def lemma(self, label, goal, hyps=(), cands=()):
        """an obligation that later ones may use"""
        ok = self.prove(label, goal, hyps, cands)
        if ok:
            self.ctx.assume(z3.Implies(z3.And(*hyps), goal) if hyps else goal)
        return ok

    def diagnose(self, goal, hyps, cands=()):
        try:
            s = self.ctx.solver_for([z3.Not(goal)] + list(hyps))
            s.set("timeout", 3000)
            for h in hyps:
                s.add(h)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return None, None
            if r == z3.sat:
                m = s.model()
                return f"counterexample candidate; goal {str(goal)[:600]}", self.model_hints(m)
            return f"solver: {r}; goal {str(goal)[:600]}", None
        except Exception as e:
            return f"{type(e).__name__}: {e}", None

    def model_hints(self, m):
        out = {}
        for n, v in self.hints.items():
            try:
                if isinstance(v, SVal):
                    out[n] = str(m.eval(v.t, model_completion=True))
                elif isinstance(v, STensor):
                    out[n] = {"shape": [str(m.eval(s, model_completion=True)) for s in v.sizes],
                              "values": str(m[v.fun])[:400] if getattr(v, "fun", None) is not None and v.ndim else None}
            except Exception:
                pass
        out["decisions"] = [f"{str(a)[:200]} = {b}" for a, b in self.ctx.notes[:40]]
        return out

    def prove_eq(self, label, a, b, hyps=()):
        """terms or scalars equal"""
        t0 = time.time()
        a, b = (x.t if isinstance(x, SVal) else x for x in (a, b))
        a, b = (lift(x) if not isinstance(x, z3.ExprRef) else x for x in (a, b))
        if a.sort() == B or b.sort() == B:
            return self.prove(label, a == b, hyps)
        if a.sort() == I and b.sort() == I:
            return self.prove(label, a == b, hyps)
        core.set_ctx(self.ctx)
        pr = self.prover()
        ok = pr.prove_eq(toreal(a), toreal(b), hyps)
        detail, model = ("", None)
        if not ok:
            detail = f"cannot show equal: {str(sums.canon(toreal(a)))[:700]}  =?=  {str(sums.canon(toreal(b)))[:700]}"
            for tr in pr.trace[-2:]:
                detail += f" | {tr[0]}: " + " ;; ".join(tr[1])[:1500]
            if not sums.has_sum(a) and not sums.has_sum(b):
                _, model = self.diagnose(toreal(a) == toreal(b), hyps)
            else:
                _, model = self.diagnose(z3.BoolVal(False), hyps)
        return self._rec(label, ok, "z3+sum rules" if (sums.has_sum(a) or sums.has_sum(b)) else "z3", t0, detail, model)

    def field_eq(self, label, lhs, rhs, eqs=()):
        """equality of rational functions over square roots (eqs: pairs of terms known equal); divisors are non-zero by their
        own obligations, square-root arguments are shown non-negative here"""
        from . import field
        t0 = time.time()
        lhs, rhs = sums.canon(toreal(lhs)), sums.canon(toreal(rhs))
        try:
            ok, args = field.identity(lhs, rhs, eqs)
        except Exception as e:
            return self._rec(label, False, "groebner", t0, f"{type(e).__name__}: {e}"[:500])
        if ok:
            core.set_ctx(self.ctx)
            ok = all(self.prover().valid(a >= 0) for a in args)
        detail, model = ("", None) if ok else self.diagnose(lhs == rhs, [a == b for a, b in eqs])
        return self._rec(label, ok, "groebner", t0, detail, model)

    def shape_is(self, label, t, dims):
        ok = isinstance(t, STensor)
        if ok and t.ndim != len(dims):
            return self._rec(label, False, "evaluation", time.time(), f"rank {t.ndim}, expected {len(dims)}")
        if not ok:
            return self._rec(label, False, "evaluation", time.time(), f"not a tensor: {type(t).__name__}")
        return self.prove(label, mkand(*[s == T.dterm(d) for s, d in zip(t.sizes, dims)]))

    def tensor_eq(self, label, t, dims, spec, shape_label=None):
        """t has shape dims and t[i...] == spec(i...) for every index."""
        if not self.shape_is(shape_label or (label + ": shape"), t, dims):
            return False
        idx = [fresh("i") for _ in dims]
        g = [z3.And(i >= 0, i < T.dterm(d)) for i, d in zip(idx, dims)]
        flat = []
        for d, i in zip(t._d, idx):
            flat += T.split_flat(i, [c.size for c in d])
        # splitting introduces quotients; keep the guards for the prover
        saved = list(self.ctx.hyps)
        self.ctx.hyps += g
        try:
            val = t.snapshot()(flat)
            want = spec(*idx)
            want = want.t if isinstance(want, SVal) else (lift(want) if not isinstance(want, z3.ExprRef) else want)
            return self.prove_eq(label, val, want)
        finally:
            self.ctx.hyps = saved

    def same_tensor(self, label, a, b):
        """same shape and content (component-aware)"""
        if a.ndim != b.ndim:
            return self._rec(label, False, "evaluation", time.time(), "different rank")
        if a.st is b.st and T._same_view(a, b):
            return self._rec(label, True, "evaluation", time.time())
        return self.tensor_eq(label, a, [wrap(s) for s in b.sizes], lambda *i: b.at(*i), label + ": shape")

    def check(self, label, cond, detail=""):
        """python-level fact on this path"""
        return self._rec(label, bool(cond), "evaluation", time.time(), detail if not cond else "")

    def fail(self, label, detail):
        return self._rec(label, False, "evaluation", time.time(), detail)

    def finish(self):
        """safety and frame obligations of the path"""
        for i, (label, goal, hyps, uf) in enumerate(self.ctx.safety):
            t0 = time.time()
            pr = self.prover(hyps, uf)
            saved = core.ctx()
            core.set_ctx(pr.ctx)
            try:
                ok = pr.valid(goal)
            finally:
                core.set_ctx(saved)
            detail, model = "", None
            if not ok:
                c = self.ctx
                h, u = c.hyps, c.ufacts
                c.hyps, c.ufacts = list(hyps), list(uf)
                detail, model = self.diagnose(goal, ())
                if detail is None:
                    ok, detail = True, ""
                c.hyps, c.ufacts = h, u
            self._rec("safety: " + label, ok, "z3", t0, detail, model)
        if self.opts.get("frame", True):
            self._rec("frame: inputs and cached values are not modified", not self.ctx.frame, "evaluation", time.time(), str(self.ctx.frame[:5]))


class Case:
    def __init__(self, name, fn, functions=(), optional=False, **opts):
        self.name, self.fn, self.functions, self.opts, self.optional = name, fn, list(functions), opts, optional


def continue_results(out, P, c):
    for r in P.results:
        r["path"] = "".join("T" if d else "F" for d in c.taken)
    out["results"] += P.results


def run_case(case, budget=600):
    """explores all paths; returns a summary dict"""
    t0 = time.time()
    out = {"case": case.name, "paths": 0, "results": [], "error": None, "infeasible": 0}
    stack = [[]]
    maxp = case.opts.get("max_paths", 300)
    sums_fail = 0
    while stack:
        prefix = stack.pop()
        if out["paths"] + out["infeasible"] >= maxp:
            out["error"] = f"path limit {maxp}"
            break
        if time.time() - t0 > budget:
            out["error"] = "time budget"
            break
        c = core.Ctx(prefix, case.opts.get("branch_ms", 1500))
        c.opts = case.opts
        if "max_unroll" in case.opts:
            c.max_unroll = case.opts["max_unroll"]
        core.set_ctx(c)
        T.CUDA_AVAILABLE = T.MPS_AVAILABLE = False
        core.NAMED_DIV.clear()
        core.FLOOR_HOOKS.clear()
        core._DRAWS.clear()
        core.ITER.clear()
        if case.opts.get("purity"):
            from .pure import PurePath
            P = PurePath(case, c, case.opts)
        else:
            P = Path(case, c, case.opts)
        try:
            case.fn(P)
            P.finish()
            out["paths"] += 1
            if case.opts.get("vacuity", True):
                r = c.check([], 2000)
                if r == z3.unsat:
                    out["paths"] -= 1
                    out["infeasible"] += 1
                    P.results = []
        except core.PathEnd:
            P.finish()
            out["paths"] += 1
            if c.check([], 2000) == z3.unsat:
                out["paths"] -= 1
                out["infeasible"] += 1
                P.results = []
        except Infeasible:
            out["infeasible"] += 1
            P.results = []
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"{os.path.relpath(f.filename, '/repo')}:{f.lineno}" for f in tb if "/repo/" in f.filename or "/src/torchrir" in f.filename]
            own = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
            P._rec("within the verifier's reach", False, "unsupported", t0, f"{type(e).__name__}: {e} at {loc[-3:]} via {own}")
            out["paths"] += 1
        except Exception as e:
            if getattr(P, "calls", 0):
                P.finish()          # purity mode: the contract's own follow-up on the result does not matter
                out["paths"] += 1
                continue_results(out, P, c)
                sums_fail += sum(1 for r in P.results if not r["ok"])
                stack.extend(reversed(c.pending))
                continue
            tb = traceback.format_exc().splitlines()
            P._rec("symbolic execution", False, "error", t0, f"{type(e).__name__}: {e} | " + " | ".join(x.strip() for x in tb[-14:]))
            out["paths"] += 1
        finally:
            if P._ld is not None:
                P._ld.close()
        for r in P.results:
            r["path"] = "".join("T" if d else "F" for d in c.taken)
        out["results"] += P.results
        sums_fail += sum(1 for r in P.results if not r["ok"])
        if sums_fail >= 6:
            out["error"] = "stopped after repeated failures"
            break
        stack.extend(reversed(c.pending))
    if out["paths"] == 0 and not out["error"]:
        out["error"] = "vacuous: no feasible path"
    out["t"] = round(time.time() - t0, 2)
    for r in out["results"]:
        if r.get("model") is not None:
            r["model"] = json.loads(json.dumps(r["model"], default=str))
    return out


def _child(case, budget, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        sys.setrecursionlimit(20000)
        r = run_case(case, budget)
    except MemoryError:
        r = {"case": case.name, "paths": 0, "results": [], "error": "out of memory", "t": 0, "infeasible": 0}
    except BaseException as e:
        r = {"case": case.name, "paths": 0, "results": [], "error": f"{type(e).__name__}: {e}", "t": 0, "infeasible": 0}
    q.put(r)


def run_cases(cases, budget=600, jobs=8, total=None):
    """each case in its own forked process; cases not finished after `total` seconds are undecided"""
    begin = time.time()
    ctx = mp.get_context("fork")
    pend = list(cases)
    live = []
    done = {}
    while pend or live:
        if total and time.time() - begin > total:
            for cs, p, q, t0 in live:
                if q.empty():
                    p.kill()
                else:
                    done[cs.name] = q.get()
            for cs in [x[0] for x in live] + pend:
                done.setdefault(cs.name, {"case": cs.name, "paths": 0, "results": [], "error": "timeout (whole check)", "t": 0, "infeasible": 0})
            break
        while pend and len(live) < jobs:
            cs = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(cs, budget, q))
            p.start()
            live.append((cs, p, q, time.time()))
        time.sleep(0.02)
        for item in list(live):
            cs, p, q, t0 = item
            if not q.empty():
                done[cs.name] = q.get()
                p.join(2)
                if p.is_alive():
                    p.kill()
                live.remove(item)
            elif not p.is_alive():
                done[cs.name] = {"case": cs.name, "paths": 0, "results": [], "error": f"checker process ended ({p.exitcode})", "t": 0, "infeasible": 0}
                live.remove(item)
            elif time.time() - t0 > budget + 60:
                p.kill()
                done[cs.name] = {"case": cs.name, "paths": 0, "results": [], "error": "timeout", "t": budget, "infeasible": 0}
                live.remove(item)
    return [done[c.name] for c in cases]


# ------------------------------------------------------------- helpers for contracts
def sum_dim(t, d, body):
    """Sum over the positions of dimension d of t (masked or flattened dimensions included): body(at) with
    at(*other indices in order, without d) = the element."""
    sts = t._d[d]
    xs = [fresh("x") for _ in sts]
    g = [z3.And(x >= 0, x < c.size) for x, c in zip(xs, sts)]
    m = t.masks.get(d)
    if m is not None:
        g.append(m.guard(xs))
    snap = t.snapshot()

    def at(*others):
        it = iter(others)
        flat = []
        for k, dd in enumerate(t._d):
            if k == d:
                flat += xs
            else:
                flat += T.split_flat(lift(next(it)), [c.size for c in dd])
        return snap(flat)
    return sums.mk_sum(xs, mkand(*g), toreal(lift(body(at))))


def sum_over(bounds, body, guard=None):
    """Sum_{0<=x_k<n_k, guard} body(x...)"""
    xs = [fresh("x") for _ in bounds]
    g = [z3.And(x >= 0, x < T.dterm(b)) for x, b in zip(xs, bounds)]
    if guard is not None:
        g.append(guard(*xs))
    b = body(*xs)
    b = b.t if isinstance(b, SVal) else b
    return sums.mk_sum(xs, mkand(*g), toreal(b))
