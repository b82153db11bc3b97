"""Runtime contract checking of the real code (run by /opt/venv/bin/python against /repo/src).

The same contracts the verifier proves symbolically are evaluated here on concrete inputs by an independent oracle; this
is what turns a failed obligation into a failing input, and what cross-checks the verifier's assumptions.
usage: rt.py <ID> --out FILE [--seed N] [--budget S] [--tier quick|thorough] [--hints JSON]
"""
from __future__ import annotations
import argparse, ast, importlib, json, math, os, random, sys, time, traceback, warnings, hashlib, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")
import numpy as np
import torch
torch.set_num_threads(int(os.environ.get("VERIF_THREADS", "2")))


class Violation(Exception):
    def __init__(self, rec):
        self.rec = rec


def show(v, lim=400):
    if isinstance(v, torch.Tensor):
        v2 = v.detach().cpu()
        s = {"tensor": list(v2.shape), "dtype": str(v2.dtype)}
        if v2.numel() <= 64:
            s["values"] = v2.tolist()
        else:
            s["head"] = v2.reshape(-1)[:16].tolist()
        return s
    if isinstance(v, np.ndarray):
        s = {"array": list(v.shape), "dtype": str(v.dtype)}
        if v.size <= 64:
            s["values"] = v.tolist()
        else:
            s["head"] = v.reshape(-1)[:16].tolist()
        return s
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, dict):
        return {str(k): show(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v[:40]]
    return repr(v)[:lim]


class RT:
    def __init__(self, pid, seed, tier, budget, hints, known=()):
        self.pid, self.seed, self.tier, self.budget, self.hints = pid, seed, tier, budget, hints or {}
        self.t0 = time.time()
        self.rng = random.Random(f"{pid}-{seed}")
        self.np = np.random.default_rng(int(hashlib.sha256(f"{pid}-{seed}".encode()).hexdigest()[:12], 16))
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.known = set(known)
        self.known_hit = {}
        self.contracts = {}
        self.cur = {}
        self.skipped = []
        self.ints = [int(x) for x in self.hints.get("ints", [])]
        self.floats = [float(x) for x in self.hints.get("floats", [])]
        self.strs = list(self.hints.get("strs", []))

    # -- budget
    def left(self):
        return self.budget - (time.time() - self.t0)

    def rounds(self, quick, thorough=None, share=1.0):
        """iterations, cut when the budget is used (always at least 1)"""
        n = quick * 2 if self.tier == "quick" else (thorough or quick * 10) * 2
        t1 = time.time()
        for i in range(n):
            if i and (self.left() < 0 or time.time() - t1 > self.budget * share):
                break
            yield i

    # -- resolving functions
    def get(self, spec, required=True):
        m, _, q = spec.partition(":")
        try:
            o = importlib.import_module(m)
            for p in q.split(".") if q else []:
                o = getattr(o, p)
            return o
        except (ImportError, AttributeError) as e:
            if required:
                self.viol(f"{spec} is available", {}, "importable", f"{type(e).__name__}: {e}")
            self.skipped.append(spec)
            return None

    # -- values
    def tensor(self, *shape, dtype=torch.float32, scale=1.0):
        return torch.as_tensor(self.np.standard_normal(shape) * scale).to(dtype)

    def size(self, lo, hi, special=(), big=None):
        """a size in lo..hi; up to big rarely, or when the changed source mentions such a number"""
        if big is not None:
            far = [x for x in self.hint_sizes(hi + 1, big)]
            if far and self.rng.random() < 0.12:
                return self.rng.choice(far)
            if self.rng.random() < 0.015:
                return self.rng.randint(lo, big)
        pool = [x for x in list(special) + self.hint_sizes(lo, hi) if lo <= x <= hi]
        if pool and self.rng.random() < 0.45:
            return self.rng.choice(pool)
        if self.rng.random() < 0.3:
            return self.rng.randint(lo, min(hi, lo + 3))
        return self.rng.randint(lo, hi)

    def hint_sizes(self, lo, hi):
        out = []
        for v in self.ints:
            for d in (-1, 0, 1):
                if lo <= v + d <= hi:
                    out.append(v + d)
        return out

    # -- reporting
    def inputs(self, **kw):
        self.cur = kw

    def count(self, key=None, nontrivial=True):
        self.evals += 1
        if nontrivial:
            k = key if key is not None else json.dumps(show(self.cur), sort_keys=True, default=str)
            h = hashlib.md5(str(k).encode()).hexdigest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 3:
                    self.samples.append(show(self.cur))

    def viol(self, contract, inputs, expected, observed, key=None):
        rec = {"property": self.pid, "contract": contract, "inputs": show(inputs if inputs else self.cur), "expected": show(expected),
               "observed": show(observed), "key": key or contract}
        if rec["key"] in self.known:
            self.known_hit.setdefault(rec["key"], rec)
            return False
        raise Violation(rec)

    def require(self, cond, contract, observed=None, expected="holds", key=None):
        self.contracts[contract] = self.contracts.get(contract, 0) + 1
        if not bool(cond):
            return self.viol(contract, None, expected, observed, key)
        return True

    def close(self, a, b, contract, rtol=1e-5, atol=1e-7, key=None):
        """a (observed) equals b (expected) within tolerance, same shape"""
        self.contracts[contract] = self.contracts.get(contract, 0) + 1
        x = a.detach().cpu().numpy() if isinstance(a, torch.Tensor) else np.asarray(a)
        y = b.detach().cpu().numpy() if isinstance(b, torch.Tensor) else np.asarray(b)
        if x.shape != y.shape:
            return self.viol(contract, None, {"shape": list(y.shape)}, {"shape": list(x.shape)}, key)
        if x.size == 0:
            return True
        x, y = x.astype(np.float64) if x.dtype.kind != "c" else x, y.astype(np.float64) if y.dtype.kind != "c" else y
        with np.errstate(all="ignore"):
            bad = ~((np.abs(x - y) <= atol + rtol * np.abs(y)) | (x == y) | (np.isnan(x) & np.isnan(y)))
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad)) if x.ndim else ()
            return self.viol(contract, None, {"index": list(i), "value": float(y[i]), "whole": show(y)},
                             {"index": list(i), "value": float(x[i]), "wrong_entries": int(bad.sum()), "whole": show(x)}, key)
        return True

    def call(self, f, *a, **k):
        try:
            return "ok", f(*a, **k)
        except Violation:
            raise
        except Exception as e:
            return "raise", e

    def ok(self, contract, f, *a, key=None, **k):
        """call that must succeed"""
        self.contracts[contract] = self.contracts.get(contract, 0) + 1
        st, v = self.call(f, *a, **k)
        if st == "raise":
            self.viol(contract, None, "returns a value", f"raises {type(v).__name__}: {v}", key)
            return None
        return v

    def rejects(self, contract, f, *a, exc=Exception, key=None, **k):
        self.contracts[contract] = self.contracts.get(contract, 0) + 1
        st, v = self.call(f, *a, **k)
        if st == "ok":
            return self.viol(contract, None, f"raises {getattr(exc, '__name__', exc)}", {"returned": show(v)}, key)
        if not isinstance(v, exc):
            return self.viol(contract, None, f"raises {getattr(exc, '__name__', exc)}", f"{type(v).__name__}: {v}", key)
        return True

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="verif_rt_")
        self._tmp = getattr(self, "_tmp", []) + [d]
        return d

    def cleanup(self):
        for d in getattr(self, "_tmp", []):
            shutil.rmtree(d, ignore_errors=True)


def mine_literals(files):
    ints, floats, strs = [], [], []
    for f in files:
        try:
            t = ast.parse(open(os.path.join(REPO, f)).read())
        except (OSError, SyntaxError):
            continue
        docs = set()
        for n in ast.walk(t):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if isinstance(v, bool) or v is None:
                    continue
                if isinstance(v, int):
                    ints.append(v)
                elif isinstance(v, float):
                    floats.append(v)
                elif isinstance(v, str) and len(v) < 40:
                    strs.append(v)
    return ints, floats, strs


def all_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".py"):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def new_literals():
    """constants of the current source that the pinned source does not have (they steer the search for failing inputs)"""
    p = os.path.join(VERIF, "tools", "base_literals.json")
    try:
        base = json.load(open(p))
    except OSError:
        base = {}
    out = {"ints": [], "floats": [], "strs": []}
    from collections import Counter
    for f in all_sources():
        cur = mine_literals([f])
        b = base.get(f, [[], [], []])
        for name, c, o in zip(("ints", "floats", "strs"), cur, b):
            out[name] += list((Counter(c) - Counter(o)).elements())
    out["ints"] += [int(x) for x in out["floats"] if float(x).is_integer() and abs(x) < 1e7]
    out["floats"] += [float(x) for x in out["ints"]]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--hints", default="{}")
    ap.add_argument("--known", default="[]")
    a = ap.parse_args()
    if a.id == "--base-literals":
        return
    hints = new_literals()
    extra = json.loads(a.hints)
    for k, v in extra.items():
        hints[k] = hints.get(k, []) + list(v)
    rt = RT(a.id, a.seed, a.tier, a.budget, hints, json.loads(a.known))
    res = {"property": a.id, "seed": a.seed, "hints": hints, "violation": None, "error": None}
    try:
        mod = importlib.import_module(a.id)
        mod.run(rt)
    except Violation as v:
        res["violation"] = v.rec
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = tb and os.path.join(REPO, "src") in tb[-1].filename
        txt = "".join(traceback.format_exception(e))[-3000:]
        # an exception out of the code under test on an input the contract admits, or a package that no longer imports
        if any(os.path.join(REPO, "src") in f.filename for f in tb):
            res["violation"] = {"property": a.id, "contract": "no exception on admissible input", "inputs": show(rt.cur), "expected": "returns",
                                "observed": txt, "key": "exception"}
        else:
            res["error"] = txt
    finally:
        rt.cleanup()
    res.update(evaluations=rt.evals, distinct=len(rt.distinct), samples=rt.samples, contracts=rt.contracts, known_hit=rt.known_hit,
               wall_s=round(time.time() - rt.t0, 2), skipped=rt.skipped)
    s = json.dumps(res, default=str)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(json.dumps(res, default=str, indent=1)[:6000])


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--base-literals":
        json.dump({f: list(mine_literals([f])) for f in all_sources()}, open(os.path.join(VERIF, "tools", "base_literals.json"), "w"))
    else:
        sys.modules["rt"] = sys.modules["__main__"]
        main()
