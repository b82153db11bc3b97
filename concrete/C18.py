"""C18 runtime contracts: trajectory convolution against a direct per-sample sum."""
import math
from fractions import Fraction
import numpy as np, torch


def reference(X, H, starts):
    """X (S,N), H (T,S,M,L), starts: T+1 segment boundaries"""
    S, N = X.shape
    T, S2, M, L = H.shape
    out = np.zeros((M, N + L - 1))
    for k in range(T):
        a, b = starts[k], starts[k + 1]
        for n in range(a, b):
            for s in range(S2):
                out[:, n:n + L] += X[s if S > 1 else 0, n] * H[k, s]
    return out


def make(rt, N, T, ns, nm, L):
    form = rt.rng.choice(["full", "full", "one", "1d", "3", "3x1", "2"])
    H = rt.tensor(T, ns, nm, L, dtype=torch.float64)
    X = rt.tensor(ns, N, dtype=torch.float64)
    if rt.rng.random() < .15:               # very quiet passages and signals, very loud responses
        q = rt.rng.choice([1e-4, 1e-6, 1e-9, 1e-12])
        if rt.rng.random() < .5:
            X, H = X * q, H / q
        else:
            X[:, : rt.rng.randint(0, N)] *= q
            if rt.rng.random() < .5:
                H, X = H / q, X
    if form in ("3", "3x1", "2"):
        H, X = H[:, :1], X[:1]
        if form == "2":
            H = H[:, :, :1]
    if form in ("one", "1d"):
        X = X[:1]
    x = X[0] if form in ("1d", "3", "2") else X
    h = H if form in ("full", "one", "1d") else (H[:, 0] if form != "2" else H[:, 0, 0])
    return x, h, X.numpy(), H.numpy()


def run(rt):
    C = rt.get("torchrir.signal:DynamicConvolver")
    st = rt.get("torchrir.signal:convolve_rir", False)
    for i in rt.rounds(500, 8000, 0.45):
        N, T = rt.size(1, 70, (1, 2, 16, 33), big=2000), rt.size(1, 40, (1, 2, 7, 8, 9, 16, 17), big=300)
        ns, nm, L = rt.size(1, 4), rt.size(1, 4), rt.size(1, 12, (1, 2))
        x, h, X, H = make(rt, N, T, ns, nm, L)
        kw = {}
        if rt.rng.random() < .5:
            fs = rt.rng.choice([8.0, 16.0, 8000.0, 44100.0])
            if rt.rng.random() < .5:
                ks = sorted(rt.rng.choice([0, N, rt.rng.randint(0, N)]) for _ in range(T))
                ks[0] = 0
                ts = torch.tensor([k / fs for k in ks], dtype=torch.float64)
                # boundary products are exact only for power-of-two rates: compare with the same float product
            else:
                ts = torch.sort(torch.rand(T, dtype=torch.float64) * N / fs)[0]
                ts[0] = 0
            starts = [min(int(math.floor(float(t) * fs)), N) for t in ts] + [N]
            kw = dict(timestamps=ts, fs=fs)
            if rt.rng.random() < .3:
                kw["timestamps"] = ts.to(torch.float32) if all(float(np.float32(float(t))) == float(t) for t in ts) else ts
        else:
            starts = [k * N // T for k in range(T)] + [N]
        rt.inputs(signal_shape=list(x.shape), rir_shape=list(h.shape), signal=x, rirs=h, timestamps=kw.get("timestamps"), fs=kw.get("fs"))
        rt.count((tuple(x.shape), tuple(h.shape), bool(kw)))
        want = reference(X, H, starts)
        want = want[0] if want.shape[0] == 1 else want
        y = rt.ok("matching shapes are accepted", C(**kw).convolve, x, h)
        rt.close(y, want, "every sample convolved once with the response of its segment", 1e-9, 1e-9 + 1e-13 * np.abs(want).max(initial=0))
        if i % 7 == 0 and st is not None and h.dim() == 4:
            hc = h[:1].expand(T, *h.shape[1:])
            rt.close(rt.ok("constant responses", C(**kw), x, hc), rt.ok("static", st, x, h[0]), "constant responses give the static convolution", 1e-9, 1e-9 + 1e-13 * np.abs(want).max(initial=0))
        if i % 5 == 0:
            ts0 = torch.arange(T, dtype=torch.float64) / 16
            bad = ts0.clone(); bad[0] = rt.rng.choice([0.25, 1e-6, 3.0])
            rt.rejects("a non-zero first timestamp is rejected", C(timestamps=bad, fs=16.0).convolve, x, h, exc=ValueError)
            rt.rejects("a missing rate is rejected", C(timestamps=ts0).convolve, x, h, exc=ValueError)
            n2 = rt.rng.choice([T + 1, T + 5] + ([T - 1] if T > 1 else []))
            rt.rejects("a wrong timestamp count is rejected", C(timestamps=torch.arange(n2, dtype=torch.float64), fs=1.0).convolve, x, h, exc=ValueError)
            S = h.shape[1] if h.dim() == 4 else 1
            k2 = rt.size(2, 7)
            if k2 != S:
                rt.rejects("a wrong signal count is rejected", C(**kw).convolve, rt.tensor(k2, N, dtype=torch.float64), h, exc=ValueError)
            rt.rejects("an unknown mode is rejected", C(mode=rt.rng.choice(["static", "Trajectory", "", "hops"])).convolve, x, h, exc=ValueError)
    # long signals: exact integer starts (floating divisions go wrong here)
    for i in rt.rounds(40, 400, 0.2):
        T = rt.size(2, 60, (3, 7, 10, 49, 8))
        N = rt.size(2000, 60000, (16000, 48000)) // T * T if rt.rng.random() < .6 else rt.size(2000, 60000)
        x = torch.ones(N, dtype=torch.float64)
        h = torch.arange(1, T + 1, dtype=torch.float64)[:, None]
        rt.inputs(n_samples=N, steps=T)
        rt.count((N, T))
        want = np.zeros(N)
        for k in range(T):
            want[k * N // T:(k + 1) * N // T] = k + 1
        rt.close(rt.ok("matching shapes are accepted", C().convolve, x, h), want, "segment k starts at floor(k*N/T)", 1e-9, 1e-6)
    # the accelerator path, on the CPU
    b = rt.get("torchrir.signal.dynamic:_convolve_dynamic_rir_trajectory_batched", False)
    if b is not None:
        for i in rt.rounds(300, 5000, 0.3):
            N, T = rt.size(1, 70), rt.size(1, 40, (1, 7, 8, 9, 15, 16, 17))
            ns, nm, L = rt.size(1, 4), rt.size(1, 4), rt.size(1, 12, (1,))
            X, H = rt.tensor(ns, N, dtype=torch.float64), rt.tensor(T, ns, nm, L, dtype=torch.float64)
            if rt.rng.random() < .5:
                w = [k * N // T for k in range(T)] + [N]
            else:
                w = [0] + sorted(rt.rng.choice([0, N, rt.rng.randint(0, N)]) for _ in range(T - 1)) + [N]
            wi = torch.tensor(w, dtype=torch.long)
            rt.inputs(signal=X, rirs=H, w_ini=wi)
            rt.count(("batched", N, T, ns, nm, L))
            try:
                y = b(X, H, w_ini=wi, w_len=wi[1:] - wi[:-1], **({"chunk_size": rt.rng.choice([1, 2, 3, 5, 9])} if rt.rng.random() < .4 else {}))
            except TypeError:
                rt.skipped.append("batched path (signature changed)")
                break
            want = reference(X.numpy(), H.numpy(), w)
            rt.close(y, want[0] if nm == 1 else want, "the batched path computes the same", 1e-9, 1e-9 + 1e-13 * np.abs(want).max(initial=0))
