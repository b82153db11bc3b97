"""C01: the image set is the requested lattice set, each vector once; images are mirrored by the parity rule."""
from ism import *

ID = "C01"
IM = AX + "images:"


def index_case(dim):
    def case(P):
        f = P.fn(IM + "_image_source_indices")
        o = P.int("max_order", 0)
        dev = T.as_device("cpu")
        st, nv = P.call(f, o, dim, device=dev)
        if st == "raise":
            return P.fail("index set is built", repr(nv))
        P.check("integer vectors of the room's dimension", nv.dtype is T.int64 and nv.ndim == 2)
        P.prove("vector length", nv.sizes[1] == dim)
        G = core.fresh_fn("G", dim, R)
        got = sum_dim(nv, 0, lambda at: G(*[at(k) for k in range(dim)]))
        P.prove_eq("every vector of the set exactly once: Sum over rows of g = Sum over the set of g, for every g",
                   got, lattice_sum(dim, o, lambda *n: G(*n)))
    return case


def nb_case(dim, as_tensor):
    def case(P):
        f = P.fn(IM + "_image_source_indices")
        o = P.int("max_order", 0)
        if as_tensor:
            nb = P.tensor("nb_img", [dim], T.int64)
            nbs = [nb.at(k) for k in range(dim)]
            for b in nbs:
                P.assume(b >= 0)
        else:
            ns = [P.int(f"nb{k}", 0) for k in range(dim)]
            nb, nbs = tuple(ns), [n.t for n in ns]
        st, nv = P.call(f, o, dim, device=T.as_device("cpu"), nb_img=nb)
        if st == "raise":
            return P.fail("index set is built", repr(nv))
        P.prove("vector length", nv.sizes[1] == dim)
        G = core.fresh_fn("G", dim, R)
        got = sum_dim(nv, 0, lambda at: G(*[at(k) for k in range(dim)]))
        P.prove_eq("per-axis counts: every vector bounded per axis exactly once", got, lattice_sum(dim, None, lambda *n: G(*n), nbs))
    return case


def nb_wrong_case(dim):
    def case(P):
        f = P.fn(IM + "_image_source_indices")
        k = P.int("k", 0)
        P.assume(k.t != dim)
        st, nv = P.call(f, P.int("max_order", 0), dim, device=T.as_device("cpu"), nb_img=P.tensor("nb_img", [k], T.int64))
        P.check("per-axis counts of another dimension are rejected", st == "raise" and isinstance(nv, ValueError), repr(nv))
    return case


def pos_case(dim, batch):
    def case(P):
        f = P.fn(IM + ("_image_positions_batch" if batch else "_image_positions"))
        K, S = P.int("K", 1), P.int("n_src", 1)
        L = P.tensor("room_size", [dim])
        s = P.tensor("src", [S, dim] if batch else [dim])
        nv = P.tensor("n_vec", [K, dim], T.int64)
        st, y = P.call(f, s, L, nv)
        if st == "raise":
            return P.fail("positions are computed", repr(y))
        if batch:
            P.tensor_eq("image positions (all sources)", y, [S, K, dim], lambda i, k, a: img(nv.at(k, a), L.at(a), s.at(i, a)))
        else:
            P.tensor_eq("image positions", y, [K, dim], lambda k, a: img(nv.at(k, a), L.at(a), s.at(a)))
    return case


CASES = []
for _d in (2, 3):
    CASES.append(Case(f"indices {_d}D", index_case(_d), [IM + "_image_source_indices"]))
    for _t in (True, False):
        CASES.append(Case(f"nb_img {_d}D {'tensor' if _t else 'tuple'}", nb_case(_d, _t), [IM + "_image_source_indices"]))
    CASES.append(Case(f"nb_img wrong {_d}D", nb_wrong_case(_d), [IM + "_image_source_indices"]))
    for _b in (True, False):
        CASES.append(Case(f"positions {_d}D {'batch' if _b else 'single'}", pos_case(_d, _b), [IM + ("_image_positions_batch" if _b else "_image_positions")]))
