"""C19 runtime contracts: hop convolution against a direct per-sample sum."""
import numpy as np, torch
from C18 import make


def run(rt):
    C = rt.get("torchrir.signal:DynamicConvolver")
    for i in rt.rounds(1200, 20000):
        N, T = rt.size(1, 80, (1, 2, 16, 33, 64)), rt.size(1, 30, (1, 2, 3))
        hop = rt.size(1, 40, (1, 2, N, N + 1, max(N - 1, 1), max(N // 2, 1), max(N // 3, 1), 16))
        if i % 40 == 7:                     # long frames, a short or full last one
            hop = rt.size(500, 6000, (512, 1024, 4096, 4095))
            T = rt.size(1, 6)
            N = max(1, hop * rt.size(1, 5) + rt.rng.choice([-2, -1, 0, 1, 2, 3, hop // 2]))
        ns, nm, L = (rt.size(1, 4), rt.size(1, 4), rt.size(1, 12, (1, 2))) if N < 300 else (rt.size(1, 2), rt.size(1, 2), rt.size(1, 700, (1, 2, 513)))
        x, h, X, H = make(rt, N, T, ns, nm, L)
        rt.inputs(hop=hop, signal_shape=list(x.shape), rir_shape=list(h.shape), signal=x, rirs=h)
        rt.count((hop, tuple(x.shape), tuple(h.shape)))
        F = min(-(-N // hop), T)
        want = np.zeros((H.shape[2], F * hop + L - 1))
        per = []
        for s in range(H.shape[1]):
            one = np.zeros_like(want)
            for k in range(F):
                seg = X[s if len(X) > 1 else 0, k * hop:(k + 1) * hop]
                if len(seg) == 0:
                    continue
                for m in range(H.shape[2]):
                    one[m, k * hop:k * hop + len(seg) + L - 1] += np.convolve(seg, H[k, s, m])
            per.append(one)
        want = sum(per)
        sq = lambda w: w[0] if w.shape[0] == 1 else w
        y = rt.ok("matching shapes are accepted", C(mode="hop", hop=hop).convolve, x, h)
        rt.close(y, sq(want), "frame k convolved with response k and added at k*hop", 1e-9, 1e-9 + 1e-13 * np.abs(want).max(initial=0))
        if i % 6 == 0:
            S = H.shape[1]
            rt.rejects("a missing hop is rejected", C(mode="hop").convolve, x, h, exc=ValueError)
            rt.rejects("a non-positive hop is rejected", C(mode="hop", hop=rt.rng.choice([0, -1, -5, -N])).convolve, x, h, exc=ValueError)
            rt.rejects("an unknown mode is rejected", C(mode=rt.rng.choice(["HOP", "frame", ""]), hop=hop).convolve, x, h, exc=ValueError)
            k2 = rt.size(2, 7)
            if k2 != S:
                rt.rejects("a wrong signal count is rejected", C(mode="hop", hop=hop).convolve, rt.tensor(k2, N, dtype=torch.float64), h, exc=ValueError)
