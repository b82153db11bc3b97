"""C22: linear trajectories."""
from dv.harness import *
from dv import tensor as T

ID = "C22"
F = "torchrir.geometry.trajectories:linear_trajectory"


def case(rank, steps, dtype=T.float32):
    def run(P):
        f = P.fn(F)
        dims = [P.int(f"n{k}", 1) for k in range(rank)]
        a, b = P.tensor("start", dims, dtype), P.tensor("end", dims, dtype)
        n = P.int("steps", 1)
        if steps == "one":
            P.assume(n.t == 1)
        elif steps == "many":
            P.assume(n.t > 1)
        else:
            n = steps
        st, y = P.call(f, a, b, n)
        if st == "raise":
            return P.fail("a trajectory exists", repr(y))
        A, E = lambda ix: toreal(a.at(*ix)), lambda ix: toreal(b.at(*ix))
        if steps in ("one", 1):
            return P.tensor_eq("a single step is the start", y, [1, *dims], lambda k, *ix: A(ix))
        nt = n.t if isinstance(n, SInt) else z3.IntVal(n)
        P.tensor_eq("position k is start + (end-start) k/(T-1)", y, [n, *dims], lambda k, *ix: A(ix) + (E(ix) - A(ix)) * toreal(k) / toreal(nt - 1))
        if isinstance(y, STensor):
            ix = [fresh("i") for _ in dims]
            hyp = [z3.And(i >= 0, i < d.t) for i, d in zip(ix, dims)]
            sn = y.snapshot()
            P.prove("begins at the start", sn([z3.IntVal(0), *ix]) == A(ix), hyps=hyp)
            last = sn([nt - 1, *ix])
            q = fresh("q", R)
            P.prove("ends at the end", z3.Implies(z3.And(q * toreal(nt - 1) == toreal(nt - 1), nt > 1), A(ix) + (E(ix) - A(ix)) * q == E(ix)), hyps=hyp)
    return run


CASES = [Case(f"rank {r} steps {s} {d.name}", case(r, s, d), [F]) for r in (0, 1, 2, 3) for s in ("one", "many") for d in (T.float32, T.int64)] + \
        [Case(f"rank 2 steps {s}", case(2, s), [F]) for s in (1, 2, 3, 5)]
