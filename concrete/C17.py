"""C17 runtime contracts: static convolution against numpy's direct convolution."""
import numpy as np, torch


def conv(x, h):
    return np.convolve(np.asarray(x, np.float64), np.asarray(h, np.float64))


def run(rt):
    fft = rt.get("torchrir.signal:fft_convolve", False) or rt.get("torchrir.signal.static:fft_convolve", False)
    cr = rt.get("torchrir.signal:convolve_rir")
    for i in rt.rounds(500, 6000, 0.5):
        n = rt.size(1, 400, (1, 2, 3, 255, 256, 257, 128, 64))
        m = rt.size(1, 300, (1, 2, 3, 128, 129, 127, 64))
        if i % 40 == 7:
            n, m = rt.size(2000, 9000, (4096, 8192, 4095)), rt.size(1, 5000, (4096, 4097))
        dt = rt.rng.choice([torch.float64, torch.float32])
        x, h = rt.tensor(n, dtype=dt), rt.tensor(m, dtype=dt)
        if rt.rng.random() < .2:
            x = x * 0; x[rt.rng.randrange(n)] = 1
        if rt.rng.random() < .15:           # very quiet against very loud
            q = rt.rng.choice([1e-4, 1e-6, 1e-9])
            x, h = (x * q, h / q) if rt.rng.random() < .5 else (x / q, h * q)
        rt.inputs(n=n, m=m, dtype=str(dt), x=x, h=h)
        rt.count((n, m, dt))
        if fft is None:
            break
        x0, h0 = x.clone(), h.clone()
        y = rt.ok("fft_convolve accepts 1-D tensors", fft, x, h)
        tol = 1e-9 if dt is torch.float64 else 3e-4
        rt.close(y, conv(x, h), "full linear convolution", rtol=tol, atol=tol * (1 + float(x.abs().max() * h.abs().sum())))
        rt.require(torch.equal(x, x0) and torch.equal(h, h0), "inputs unchanged")
    for i in rt.rounds(400, 6000, 0.5):
        ns, nm = rt.size(1, 5), rt.size(1, 5)
        N, L = rt.size(1, 90, (1, 2, 64)), rt.size(1, 60, (1, 2, 33))
        form = rt.rng.choice(["1x1", "1x2", "1x3", "n3", "13", "12"])
        x = rt.tensor(N, dtype=torch.float64)
        if form in ("n3",):
            x = rt.tensor(ns, N, dtype=torch.float64)
        elif form in ("13", "12"):
            x = x[None]
        h = {"1x1": (L,), "1x2": (nm, L), "12": (nm, L)}.get(form, (ns, nm, L))
        h = rt.tensor(*h, dtype=torch.float64)
        rt.inputs(signal=x, rirs=h, signal_shape=list(x.shape), rir_shape=list(h.shape))
        rt.count((tuple(x.shape), tuple(h.shape)))
        y = rt.ok("matching shapes are accepted", cr, x, h)
        X = x.numpy().reshape(-1, N)
        H = h.numpy().reshape((1,) * (3 - h.dim()) + tuple(h.shape))
        want = np.stack([sum(conv(X[min(s, len(X) - 1)], H[s, m]) for s in range(H.shape[0])) for m in range(H.shape[1])])
        if want.shape[0] == 1:
            want = want[0]
        rt.close(y, want, "microphone output is the sum over sources of the convolutions", 1e-9, 1e-9)
        # a wrong number of signals
        k = rt.size(2, 6)
        if k != ns:
            bad = rt.tensor(k, N, dtype=torch.float64)
            rt.inputs(signal=bad, rirs_shape=[ns, nm, L])
            rt.rejects("a source-count mismatch is rejected", cr, bad, rt.tensor(ns, nm, L, dtype=torch.float64), exc=ValueError)
