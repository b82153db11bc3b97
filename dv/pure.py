"""Purity mode: a contract case is executed again, but the obligations are about effects only — writes to arguments, to
module state and to cached values, the determination of cache entries by their keys, and the process-wide generators."""
from __future__ import annotations
import dataclasses, time, types
from . import core, harness
from .core import SVal, Unsupported, Infeasible
from .tensor import STensor
from .harness import CacheDict, Path


def fingerprint(o, depth, seen):
    """structure of o by identity of its leaves"""
    if depth < 0 or o is None or isinstance(o, (str, bytes, bool, type)):
        return ("v", o) if not isinstance(o, type) else ("t", id(o))
    if isinstance(o, (int, float)) and not isinstance(o, SVal):
        return ("n", type(o).__name__, repr(o))
    if isinstance(o, SVal):
        return ("s", o.t.get_id())
    if isinstance(o, STensor):
        return ("T", id(o), id(o.st))
    if id(o) in seen:
        return ("r", id(o))
    seen = seen | {id(o)}
    if isinstance(o, CacheDict):
        return ("c", id(o))
    if isinstance(o, dict):
        return ("d", id(o), tuple((fingerprint(k, 1, seen), fingerprint(v, depth - 1, seen)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return ("l", type(o).__name__, id(o) if isinstance(o, list) else 0, tuple(fingerprint(x, depth - 1, seen) for x in o))
    if isinstance(o, (set, frozenset)):
        return ("S", id(o), frozenset(fingerprint(x, 1, seen) for x in o))
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType)):
        return ("f", id(o))
    d = getattr(o, "__dict__", None)
    if isinstance(d, dict) and depth > 0 and type(o).__module__.split(".")[0] == "torchrir":
        return ("o", id(o), tuple((k, fingerprint(v, depth - 1, seen)) for k, v in d.items() if not k.startswith("__")))
    return ("i", id(o))


def defaults(v):
    return fingerprint(list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()), 3, frozenset())[3]


def module_state(m):
    out = {}
    for k, v in vars(m).items():
        if k.startswith("__") or k in ("_dv",):
            continue
        if isinstance(v, types.FunctionType):
            if v.__module__ == m.__name__ and not getattr(v, "__dv_stub__", False):
                out["defaults of " + k] = (v, defaults(v))
            continue
        if isinstance(v, types.ModuleType) or callable(v) and not isinstance(v, type) or getattr(v, "__dv_stub__", False):
            continue
        if isinstance(v, type):
            if getattr(v, "__module__", None) == m.__name__:
                for a, b in vars(v).items():
                    if a.startswith("__") or callable(b) or isinstance(b, (classmethod, staticmethod, property)):
                        continue
                    out[f"{k}.{a}"] = fingerprint(b, 2, frozenset())
            continue
        out[k] = fingerprint(v, 3, frozenset())
    return out


class PureLoader(harness.Loader):
    def __init__(self, shims, src=None):
        super().__init__(shims, src)
        self.state = {}

    def load(self, name):
        new = name not in self.modules
        m = super().load(name)
        if new:
            for n, x in list(self.modules.items()):
                if n not in self.state and n != "torchrir":
                    self.state[n] = None
            if m.__dict__.get("__builtins__") is not None and name != "torchrir":
                self.state[name] = module_state(m)
        return m


class PurePath(Path):
    calls = 0

    @property
    def ld(self):
        if self._ld is None:
            self._ld = PureLoader(self.shims)
        return self._ld

    def call(self, f, *a, **k):
        before = [fingerprint(x, 4, frozenset()) for x in list(a) + list(k.values())]
        me = getattr(f, "__self__", None)
        mine = fingerprint(me, 4, frozenset()) if me is not None and not isinstance(me, (type, types.ModuleType)) else None
        keys = list(k)
        self.snap()
        r = super().call(f, *a, **k)
        self.calls += 1
        after = [fingerprint(x, 4, frozenset()) for x in list(a) + [k[x] for x in keys]]
        self._rec("frame: argument objects keep their contents", before == after and (mine is None or mine == fingerprint(me, 4, frozenset())),
                  "evaluation", time.time(), "" if before == after else f"{before} -> {after}"[:600])
        return r

    def snap(self):
        for n, m in self.ld.modules.items():
            if self.ld.state.get(n) is None and n != "torchrir":
                self.ld.state[n] = module_state(m)

    def _yes(self, *a, **k):
        return True
    prove = prove_eq = field_eq = shape_is = tensor_eq = same_tensor = check = fail = impossible = _yes

    def collects(self, make, pred, progress=None):
        Path.collects(self, make, pred, progress)

    def finish(self):
        c = self.ctx
        c.safety = [s for s in c.safety if s[0].startswith("cache ")]
        super().finish()
        g = [e[1] for e in c.log if e[0] == "global_rng"]
        self._rec("frame: process-wide generators are neither read nor advanced", not g, "evaluation", time.time(), str(g[:4]))
        bad = []
        for n, s in self.ld.state.items():
            if s is None:
                continue
            now = module_state(self.ld.modules[n])
            for k in set(s) | set(now):
                if k.startswith("defaults of "):
                    if k in s and defaults(s[k][0]) != s[k][1]:
                        bad.append(f"{n}: {k}")
                elif s.get(k) != now.get(k):
                    bad.append(f"{n}: {k}")
        self._rec("frame: module state is not modified", not bad, "evaluation", time.time(), str(bad[:5]))
