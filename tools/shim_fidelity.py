"""Fidelity of the torch/numpy/math models: every expression below is evaluated by the real library on random constants and by
the model, on the same constants (a) as literals and (b) through symbolic tensors of symbolic shape constrained to them; the
model's shape, dtype and every element must follow from the constraints to be the real result.

  python3 tools/shim_fidelity.py [seeds...]        (report on stdout, exit 1 on a mismatch; a refusal is sound and only counted)
"""
import json, os, random, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VARS = {  # name: (shape, kind)
    "A": (("n", "m"), "f"), "B": (("n", "m"), "f"), "C": (("m", "k"), "f"), "D": (("n", "m", "k"), "f"), "v": (("m",), "f"), "w": (("n",), "f"), "u": (("n",), "f"),
    "X": (("n", "m"), "i"), "Y": (("n", "m"), "i"), "p": (("m",), "i"), "J": (("k",), "idxn"), "L": (("k",), "i"), "M": (("n", "m"), "b"), "N": (("n", "m"), "b"), "z": (("k",), "f"),
    "P3": (("n", "three"), "f"), "Q3": (("n", "three"), "f"), "S": ((), "f"), "K": ((), "i"), "PP": (("n", "m"), "pos"), "E1": (("m",), "pos"),
}
EXPRS = """
A + B | A - B * 2 | A * v | A / PP | A // PP | A % PP | X // (Y * 0 + 3) | X % (Y * 0 + 3) | X // -2 | X % -2 | A // -0.75 | A % -0.75 | -A | abs(A) | A ** 2 | 2.0 - A | 1.0 / PP | X + 1.5 | X / 2 | X * A | M & N | M | N | M ^ N
~M | A > B | A >= 0 | X == Y | X != 1 | A < v | w.unsqueeze(1) * v | w[:, None] + v[None, :] | A + S | X + K | A.float() + 1 | X.float() / 4 | A.long() | A.to(torch.int64) | X.to(torch.bool) | M.float() | M.long() | A.double() | A.bool()
A.floor() | A.ceil() | A.round() | A.trunc() | A.sign() | A.clamp(min=0.0) | A.clamp(max=0.5) | A.clamp(-1.0, 1.0) | X.clamp(min=1) | torch.maximum(A, B) | torch.minimum(A, B) | torch.clamp(A, -0.5, 0.5) | A.abs() | A.square()
PP.sqrt() * PP.sqrt() | torch.sqrt(PP * PP) | torch.where(M, A, B) | torch.where(A > 0, A, 0.0) | torch.where(M, A, v) | A.masked_fill(M, -1.0) | torch.zeros_like(A) | torch.ones_like(X) | torch.full_like(A, 2.5)
A.sum() | A.sum(0) | A.sum(dim=1) | A.sum(dim=-1, keepdim=True) | D.sum(dim=(0, 2)) | X.sum() | X.sum(dim=0) | M.sum() | M.sum(dim=1) | A.mean() | A.mean(dim=1) | D.mean(dim=(1, 2)) | torch.sum(D, dim=1) | A.prod(dim=0) | X.prod()
A.max() | A.min() | A.amax(dim=1) | A.amin(dim=0) | X.max() | X.min() | A.max(dim=1).values | A.min(dim=0)[0] | X.max(dim=0)[0] | torch.max(A) | torch.max(A, B) | M.any() | M.all() | M.any(dim=0) | M.all(dim=1) | torch.any(A > 1) | torch.all(A > -9)
A.T | A.t() | A.transpose(0, 1) | D.permute(2, 0, 1) | D.transpose(1, 2) | D.transpose(-1, 0) | A.unsqueeze(0) | A.unsqueeze(-1) | A.unsqueeze(1).squeeze(1) | A[:1].squeeze(0) | A.unsqueeze(0).squeeze() | A.reshape(-1) | D.reshape(D.shape[0], -1) | D.reshape(-1, D.shape[2]) | A.view(-1, 1) | D.flatten() | D.flatten(1) | D.flatten(0, 1) | A.reshape(1, -1, A.shape[1])
A.expand(2, -1, -1) | v.expand(A.shape[0], -1) | w.unsqueeze(1).expand(-1, 3) | A.repeat(2, 1) | A.repeat(1, 3) | v.repeat(2, 2) | v.broadcast_to(3, v.shape[0]) | torch.stack([A, B]) | torch.stack([A, B], dim=1) | torch.stack([A, B], dim=-1) | torch.cat([A, B]) | torch.cat([A, B], dim=1) | torch.cat([A, B[:1]], dim=0) | torch.cat([v, torch.zeros(2, dtype=v.dtype)])
A[0] | A[-1] | A[:, 0] | A[:, -1] | A[0, 0] | A[1:] | A[:-1] | A[:, 1:] | A[-2:] | A[::2] | A[:, ::2] | A[..., 0] | D[..., 1:] | D[:, 0] | D[0, :, 0] | A[None] | A[:, None] | A[..., None] | D[0][0] | A[:100] | A[100:] | A[:0] | A[J] | A[J, 0] | A[:, 0][J] | D[J] | D[J, :, 0] | D[:, 0][J] | A[M] | A[M].sum() | v[v > 0].sum() | A[A > 0.5] | v[v > 0] | A[w > 0] | D[M] | A.index_select(0, J) | A[J].sum(0)
A @ C | A @ v | v @ v | C.T @ A.T | torch.matmul(A, C) | D @ C.T[:, :1] if False else A @ C | torch.arange(5) | torch.arange(2, 7) | torch.arange(1, 8, 3) | torch.arange(3.0) | torch.arange(A.shape[0]) | torch.arange(A.shape[0], dtype=torch.float32) / 2 | torch.arange(-A.shape[1], A.shape[1] + 1) | torch.zeros(A.shape) | torch.ones(2, A.shape[1]) | torch.full((2, 3), 1.5) | torch.full((A.shape[0],), 2) | torch.linspace(0, 1, 5) | torch.linspace(-1, 2, A.shape[0] + 1) | torch.empty(0) | torch.zeros(0, 3).sum(0)
torch.meshgrid(v, w, indexing='ij')[0] | torch.meshgrid(v, w, indexing='ij')[1] | torch.meshgrid(p, L, J, indexing='ij')[2].reshape(-1) | torch.stack(torch.meshgrid(p, L, indexing='ij'), dim=-1).reshape(-1, 2) | torch.cross(P3, Q3, dim=-1) | torch.cross(P3, Q3, dim=1) | torch.linalg.norm(P3, dim=-1) ** 2 | P3.norm(dim=-1) ** 2 | torch.linalg.norm(P3) ** 2 | torch.cdist(P3, Q3) ** 2 | torch.roll(A, 1, dims=0) | torch.roll(v, 2) | torch.roll(A, shifts=-1, dims=1)
torch.eye(3) | torch.eye(A.shape[0]) | torch.outer(w, v) | torch.diff(A, dim=1) | torch.diff(A, dim=0) | torch.flip(A, dims=(0,)) | A.flip(1) | torch.movedim(D, 0, -1) | torch.movedim(D, 2, 0) | torch.hstack([A, B]) | torch.vstack([A, B]) | torch.hstack([v, v]) | torch.vstack([v, v]) | torch.column_stack([v, v]) | torch.tile(A, (2, 1)) | torch.cartesian_prod(v, w) | torch.addcmul(A, B, B, value=2.0) | torch.lerp(A, B, 0.25) | torch.hypot(A, B) ** 2
torch.cumsum(A, dim=1) | torch.cumsum(v, 0) | A.cumsum(0) | torch.bincount(J) | torch.nonzero(M) | torch.nonzero(v > 0).reshape(-1) | torch.unique(p) | torch.sort(v).values | torch.argsort(v) | torch.searchsorted(torch.tensor([0.0, 1.0, 2.0]), v) | torch.allclose(A, A) | torch.allclose(A, B) | torch.equal(A, A.clone()) | torch.equal(A, B)
torch.isfinite(A) | torch.isnan(A) | torch.isfinite(A).all() | torch.tensor([1, 2, 3]) | torch.tensor([1.0, 2]) | torch.tensor([[1, 2], [3, 4]]) | torch.tensor(2.5) | torch.as_tensor([1.5, 2.0]) | torch.tensor([True, False]) | torch.as_tensor(A) | torch.unbind(A[:2])[1] | A.unbind(1)[0] | A.select(0, 0) | A.narrow(0, 0, 1) | A.chunk(2)[0] | A.split(1)[0] | torch.split(A, 1)[0] | A.new_zeros(2) | A.new_tensor([1.0]) | A.new_full((2,), 3.0) | torch.take(A, J)
A.numel() | A.dim() | A.ndim | A.shape[0] | A.size(1) | A.size(-1) | len(A) | A[0, 0].item() | X[0, 0].item() | float(A[0, 0]) | int(X[0, 0]) | int(A[0, 0]) | bool(M[0, 0]) | A.shape[0] * A.shape[1] | tuple(A.shape)[1] | K.item() // 2 | K.item() % 3 | int(K) + 1 | round(float(S)) | math.floor(float(S)) | math.ceil(float(S)) | int(float(S)) | max(float(S), 0.25) | min(int(K), 1) | abs(float(S)) | -int(K) // 2 | math.trunc(float(S)) | float(S) // 0.5 | float(S) % 0.75 | divmod(int(K), 3)[0] | int(K) ** 2 | bool(K)
A.int() | A.to(torch.int16) | (A * 0.5).to(torch.int32) | A.to(torch.float64) | X.double() | X.int() + X | A.float() + A.double() | X.int() * 2.5 | torch.arange(3) + A[0, 0] | X * True | M * A | M + 1 | M.float() * A | (A > 0).float().sum() | A.clamp(min=0).sum(dim=0) | (A * B).sum(dim=-1) | A.div(2) | A.mul(B) | A.sub(B, alpha=2) | A.add(B, alpha=0.5) | A.div(PP, rounding_mode='floor') | A.div(PP, rounding_mode='trunc') | A.remainder(0.75) | A.floor_divide(0.75) | A.reciprocal() * A if False else A | A.pow(3) | A.neg()
torch.sign(A) | torch.deg2rad(A) | torch.logical_and(M, N) | torch.logical_or(M, N) | torch.logical_not(M) | torch.eq(A, B) | torch.gt(A, B) | torch.le(A, 0.5) | torch.broadcast_to(v, (2, v.shape[0])) | torch.flatten(D, 1) | torch.unsqueeze(A, 0) | torch.squeeze(A[:1], 0) | torch.permute(D, (1, 0, 2)) | torch.transpose(A, 0, 1) | torch.abs(A) | torch.floor(A) | torch.square(A) | torch.pow(A, 2) | torch.amax(A, dim=1) | torch.prod(A, dim=1) | torch.count_nonzero(M) | torch.mean(A, dim=0) | torch.dot(v, v) | torch.linalg.vector_norm(A, dim=1) ** 2 | torch.einsum('ij,jk->ik', A, C) | torch.einsum('ij,j->i', A, v) | torch.einsum('ij,ij->i', A, B)
torch.zeros(4).scatter_add_(0, J, z) | torch.zeros(3, 4).index_add_(0, J.clamp(max=2), torch.ones(J.shape[0], 4)) | torch.zeros(6, dtype=A.dtype).index_add_(0, p.abs(), v) | torch.zeros(6, dtype=A.dtype).index_put_((p.abs(),), v, accumulate=True)
(A > 2.75).sum() > 0 | (A > -99).sum() == A.numel() | (A > 99).sum() == 0 | torch.einsum('ijk,j->ik', D, v) | torch.einsum('ij,ik->jk', A, B) | torch.einsum('i,j->ij', w, v) | torch.einsum('ij->ji', A) | torch.roll(A, (1, 1), (0, 1)) | torch.roll(A, 1) | torch.min(A, dim=0).values | A.isfinite() | torch.numel(A) | A.type_as(X) | A.view_as(B) | A.reshape_as(B) | A.expand_as(D[:, :, 0]) | D.sum(-1) | D.amax(dim=(0, 1)) | A.mean(dim=0, keepdim=True) | A - A.mean(dim=1, keepdim=True) | torch.stack([v, v + 1], 1).flatten() | torch.cat([A, B], -1).sum(1) | (A.unsqueeze(1) - B.unsqueeze(0)).abs().sum(-1)
"""
STMTS = """
R = torch.zeros(A.shape[0], 4); R[:, 1] = w | R = A.clone(); R[0] = 0.0 | R = A.clone(); R[:, -1] += 1 | R = A.clone(); R[M] = 0.25 | R = A.clone(); R[A > 0] *= 2 | R = torch.zeros(5); R[1:3] = 2.0 | R = A.clone(); R[J] = 1.5 | R = A.clone(); R[1:, 1:] = B[1:, 1:] | R = A.clone(); B2 = R[0]; B2 += 1
R = A.clone(); R += B | R = A.clone(); R *= v | R = A.clone(); R.add_(B, alpha=2) | R = A.clone(); R.clamp_(min=0) | R = A.clone(); R.fill_(3.0) | R = A.clone(); R.zero_() | R = A.clone(); R[..., 0] = R[..., 0] * 2 | R = A.clone(); R[:, :1] = 7 | R = torch.zeros(3, A.shape[1]); R[0] = A[0]; R[2] = A[-1] | R = A.clone(); R.copy_(B) | R = A.clone(); R[::2] = 0 | R = X.clone(); R[:, 0] = 1.75 | R = A.clone(); V = R.T; V[0] = 5.0 | R = A.clone(); V = R.reshape(-1); V[0] = 5.0 | R = A.clone(); Q = R[:, None]; Q *= 2
R = A.clone(); R[0, 0], R[-1, -1] = 1.0, 2.0 | R = A; R = R + 1; R -= 1 | a, b = A[0], A[-1]; R = a + b | R = D.clone(); R[:, 0, :] = z | R = D.clone(); R[..., 1:] = 0 | R = D.clone(); R[0, :, 0] = v | R = A.double().clone(); R[:] = A | R = torch.zeros_like(A); R[w > 0] = A[w > 0] | R = A.clone(); R[0] = R[-1] | R = A.clone(); T1 = R.transpose(0, 1); T1 += 1 | R = A.clone(); R.masked_fill_(M, 0.5) | R = A.clone(); R[:, J.clamp(max=0)] = 4.0
"""


def items():
    out = [("R = " + e.strip()) for line in EXPRS.strip().splitlines() for e in line.replace(" | N |", " @or N |").split(" | ") if e.strip()]
    out = [o.replace("M @or N", "M | N") for o in out]
    return out + [s.strip() for line in STMTS.strip().splitlines() for s in line.split(" | ")]


def data(seed):
    r = random.Random(seed)
    dims = {"n": r.randint(2, 4), "m": r.randint(2, 4), "k": r.randint(2, 4), "three": 3}
    out = {}

    def val(kind):
        if kind == "f": return r.randint(-12, 12) / 4
        if kind == "pos": return r.randint(1, 12) / 4
        if kind == "i": return r.randint(-5, 5)
        if kind == "idxn": return r.randint(0, dims["n"] - 1)
        return r.random() < 0.5

    def nest(sh, kind):
        return val(kind) if not sh else [nest(sh[1:], kind) for _ in range(sh[0])]
    for nm, (sh, kind) in VARS.items():
        out[nm] = {"sym": list(sh), "shape": [dims[s] for s in sh], "kind": kind, "data": nest([dims[s] for s in sh], kind)}
    return dims, out


def real(seeds):
    import torch, math, numpy as np, torch.nn.functional as F
    res = {}
    for sd in seeds:
        _, d = data(sd)
        for it in items():
            env = {"torch": torch, "math": math, "np": np, "F": F}
            for nm, x in d.items():
                env[nm] = torch.tensor(x["data"], dtype={"f": torch.float32, "pos": torch.float32, "b": torch.bool}.get(x["kind"], torch.int64)).reshape(x["shape"])
            try:
                exec(it, env)
                R = env["R"]
                if isinstance(R, torch.Tensor):
                    o = {"shape": list(R.shape), "dtype": str(R.dtype).split(".")[1], "vals": R.reshape(-1).tolist()}
                else:
                    o = {"py": R}
                for nm, x in d.items():      # inputs must be unmodified for the comparison to make sense
                    pass
            except Exception as e:
                o = {"raise": type(e).__name__, "msg": str(e)[:100]}
            res[f"{sd}|{it}"] = o
    print(json.dumps(res))


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def model_case(sd, it, want, symbolic):
    import itertools, z3
    from dv import core, shim_torch, shim_math, tensor as T, harness
    from dv.core import lift, toreal

    def fn(P):
        dims, d = data(sd)
        sz = {}
        if symbolic:
            for s, v in dims.items():
                if s == "three":
                    sz[s] = 3
                    continue
                x = P.int(s, 1)
                P.assume(x.t == v)
                sz[s] = x
        env = {"torch": shim_torch.torch, "math": shim_math.math, "F": shim_torch.MODULES.get("torch.nn.functional")}
        from dv import builtins_shim as bs
        for b in ("len", "int", "float", "round", "max", "min", "abs", "bool", "tuple", "divmod", "sum", "range"):
            g = getattr(bs, "dv_" + b, None) or getattr(bs, "BUILTINS", {}).get(b)
            if g is not None:
                env[b] = g
        for nm, x in d.items():
            dt = {"f": T.float32, "pos": T.float32, "b": T.bool_}.get(x["kind"], T.int64)
            if not symbolic:
                env[nm] = shim_torch.torch.tensor(x["data"], dtype=dt)
                continue
            t = P.tensor(nm, [sz[s] for s in x["sym"]], dt, frozen=False)
            fl = flat(x["data"]) if x["shape"] else [x["data"]]
            for idx, v in zip(itertools.product(*[range(k) for k in x["shape"]]), fl):
                e = t.at(*idx) if x["shape"] else t.at()
                e = e.t if hasattr(e, "t") and not isinstance(e, z3.ExprRef) else e
                P.assume(e == (z3.BoolVal(v) if isinstance(v, bool) else z3.RealVal(str(v)) if dt.kind == "f" else z3.IntVal(v)))
            env[nm] = t
        try:
            exec(it, env)
        except (core.Unsupported, core.Infeasible):
            raise
        except Exception as e:
            harness.check_modelled(e)
            P.check(f"raises {type(e).__name__}", "raise" in want, str(e)[:150])
            return
        if "raise" in want:
            P.fail("the model does not raise", want["msg"])
            return
        R = env["R"]

        from dv import sums

        def unroll(t):
            """sums over the (small, constrained) index ranges written out"""
            seen = {}

            def go(x):
                i = x.get_id()
                if i not in seen:
                    if sums.is_sum(x):
                        bs, g, b = sums.expand(x)
                        top = 17 if len(bs) == 1 else 5
                        terms = []
                        for vals in itertools.product(range(top), repeat=len(bs)):
                            sub = [(v, z3.IntVal(k)) for v, k in zip(bs, vals)]
                            terms.append(z3.If(go(z3.simplify(z3.substitute(g, *sub))), go(z3.simplify(z3.substitute(b, *sub))), z3.RealVal(0)))
                        seen[i] = z3.Sum(terms)
                    elif z3.is_app(x) and x.num_args():
                        seen[i] = x.decl()(*[go(y) for y in x.children()])
                    else:
                        seen[i] = x
                return seen[i]
            return go(t)

        def decide(lab, goal):
            core.set_ctx(P.ctx)
            if z3.is_true(z3.simplify(goal)) or P.prover().valid(goal):
                P.check(lab, True)
            elif P.prover().valid(z3.Not(goal)):
                P.fail("MISMATCH " + lab, str(goal)[:200])
            else:
                P.fail("undecided " + lab, str(goal)[:200])

        def eq(lab, got, w):
            g = lift(got) if not isinstance(got, z3.ExprRef) else got
            if sums.has_sum(g):
                g = unroll(g)
            if isinstance(w, bool):
                decide(lab, g == z3.BoolVal(w) if g.sort() == core.B else g != 0 if w else g == 0)
            elif isinstance(w, int) and g.sort() == core.I:
                decide(lab, g == w)
            else:
                tol = abs(w) * 1e-5 + 1e-5
                g = toreal(g)
                decide(lab, z3.And(g <= z3.RealVal(f"{w + tol:.9f}"), g >= z3.RealVal(f"{w - tol:.9f}")))
        if "py" in want:
            eq("value", R.t if hasattr(R, "t") and not isinstance(R, T.STensor) else R, want["py"])
            return
        if not isinstance(R, T.STensor):
            P.fail("tensor", type(R).__name__)
            return
        P.check("dtype", R.dtype.name.replace("bool_", "bool") == want["dtype"], f"{R.dtype.name} instead of {want['dtype']}")
        for k in list(R.masks):
            R = R.materialize_mask(k)
        if R.ndim != len(want["shape"]):
            P.fail("MISMATCH rank", f"{R.ndim} instead of {len(want['shape'])}")
            return
        decide("shape", z3.And(*[z == k for z, k in zip(R.sizes, want["shape"])], z3.BoolVal(True)))
        for idx, v in zip(itertools.product(*[range(k) for k in want["shape"]]), want["vals"]):
            e = R.at(*idx)
            eq(f"element {idx}", e.t if hasattr(e, "t") and not isinstance(e, z3.ExprRef) else e, v)
    return harness.Case(f"{'sym' if symbolic else 'lit'} {sd} {it}", fn, max_paths=8, frame=False, ms=4000, budget=20)


def main(seeds, only):
    sys.path.insert(0, H)
    sys.setrecursionlimit(20000)
    from dv import harness, shim_more  # noqa
    r = subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "--real"] + [str(s) for s in seeds], capture_output=True, text=True)
    want = json.loads(r.stdout)
    cases = [model_case(sd, it, want[f"{sd}|{it}"], sym) for sd in seeds for it in items() if only in it for sym in (False, True)]
    res = harness.run_cases(cases, budget=60, jobs=int(os.environ.get("J", "6")))
    ok = bad = refused = elems = unk = 0
    ref = set()
    for c, o in zip(cases, res):
        fails = [x for x in o["results"] if not x["ok"]]
        if any(x["backend"] == "unsupported" for x in fails) :
            refused += 1
            ref.add(c.name.split(" ", 2)[2] + "  [" + c.name[:3] + "] " + next(x["detail"] for x in fails if x["backend"] == "unsupported")[:110])
        elif fails or (o["error"] and not o["paths"]):
            hard = [x for x in fails if not x["label"].startswith(("undecided", "safety"))]
            if hard or not fails:
                bad += 1
                print("MISMATCH", c.name, "|", o["error"], "|", [(x["label"], str(x["detail"])[:260]) for x in fails[:2]])
            else:
                unk += 1
                print("undecided", c.name, "|", fails[0]["label"], str(fails[0]["detail"])[:200])
        else:
            ok += 1
            elems += len(o["results"])
    print(f"{ok} agree ({elems} elements, shapes and dtypes proved), {refused} refused, {unk} undecided, {bad} mismatches; seeds {seeds}")
    if os.environ.get("SHOW"):
        for x in sorted(ref):
            print("refused:", x)
    return 1 if bad else 0


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--real":
        real([int(x) for x in sys.argv[2:]])
    else:
        VT = "/opt/veriftools/pyvenv/bin/python"
        if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
            os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
        only = next((a[7:] for a in sys.argv[1:] if a.startswith("--only=")), "")
        sys.exit(main([int(x) for x in sys.argv[1:] if not x.startswith("--")] or [1], only))
