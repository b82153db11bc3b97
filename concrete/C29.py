"""C29 runtime contracts: both concatenation loops on fake corpora with ragged utterances, every load recorded."""
import math, random
from fractions import Fraction
import numpy as np, torch


class Sent:
    def __init__(self, u):
        self.utterance_id = u
        self.text = "t " + u
        self.speaker_id = "x"


def make(rt, Base, speakers, equal):
    """corpus: speaker -> {utterance: (samples, rate)}; a factory of recording data sets"""
    class Fake(Base):
        def __init__(self, corpus, speaker, log):
            self.corpus, self.speaker, self.log = corpus, speaker, log

        def list_speakers(self):
            return list(self.corpus)

        def available_sentences(self):
            rows = [Sent(u) for u in self.corpus[self.speaker]] if self.speaker is not None else [Sent(u) for s in self.corpus for u in self.corpus[s]]
            return tuple(rows) if equal else rows

        def load_audio(self, u):
            if len(self.log) > 5000:
                raise AssertionError("loads without end")
            if self.speaker is None or u not in self.corpus[self.speaker]:
                raise AssertionError(f"utterance {u} is not one of speaker {self.speaker}")
            x, fs = self.corpus[self.speaker][u]
            self.log.append((self.speaker, u))
            return x.clone(), fs

        def audio_info(self, u):
            x, fs = self.corpus[self.speaker][u]
            return len(x), fs
    return Fake


def judge(rt, name, row, ids, loads, utts, target, n_utts):
    rt.require(isinstance(row, torch.Tensor) and row.ndim == 1 and row.shape[0] == target, f"{name}: exactly the requested number of samples", list(row.shape), [target])
    rt.require(list(ids) == loads, f"{name}: the reported utterances are those loaded, in order", list(ids), loads)
    rt.require(all(u in utts for u in ids), f"{name}: the utterances are the speaker's own", list(ids), sorted(utts))
    whole = torch.cat([utts[u][0] for u in ids]) if ids else torch.zeros(0)
    rt.require(torch.equal(row.to(whole.dtype), whole[:target]), f"{name}: whole utterances concatenated in the reported order, cut at the end", row, whole[:target])
    rt.require(whole.shape[0] - len(utts[ids[-1]][0]) < target, f"{name}: nothing is loaded beyond what is needed", len(ids), "one utterance less suffices")
    for a in range(0, len(ids), n_utts):
        part = ids[a:a + n_utts]
        rt.require(len(set(part)) == len(part), f"{name}: no utterance is repeated before all were used", list(ids), part)


def run(rt):
    Base = rt.get("torchrir.datasets.base:BaseDataset")
    choose = rt.get("torchrir.datasets.utils:choose_speakers")
    load = rt.get("torchrir.datasets.utils:load_dataset_sources")
    fixed = rt.get("torchrir.datasets.dynamic_cmu_arctic:_load_fixed_length_signal", False)
    seen_orders = set()
    for i in rt.rounds(500, 5000, .8):
        ns = rt.size(1, 6, [1, 2], big=30)
        fs = rt.rng.choice([8000, 16000, 10, 7, 44100])
        style = rt.rng.choice(["ragged", "equal", "tiny", "withempty"])
        corpus = {}
        for s in range(ns):
            m = rt.rng.choice([1, 1, 2, 3, 5, 9])
            d = {}
            for u in range(m):
                n = {"ragged": rt.rng.randrange(1, 60), "equal": 20, "tiny": rt.rng.randrange(1, 3), "withempty": rt.rng.choice([0, 5, 11])}[style]
                if u == 0 and n == 0:
                    n = 4
                d[f"s{s}_u{u}"] = (torch.as_tensor(rt.np.normal(size=n), dtype=torch.float32), fs)
            corpus[f"spk{s}"] = d
        log = []
        opened = []
        Fake = make(rt, Base, corpus, rt.rng.random() < .3)

        def factory(sp=None):
            opened.append(sp)
            return Fake(corpus, sp, log)
        want = rt.rng.choice([1, 3, 10, 20, 40, 100, 200])
        dur = rt.rng.choice([want / fs, (want + .5) / fs, (want + .999) / fs, want / fs * (1 + 1e-12)])
        k = rt.rng.choice([1, ns, rt.rng.randrange(1, ns + 1), ns + 1 if rt.rng.random() < .3 else 1])
        seed = rt.rng.randrange(10 ** 9)
        targets = {math.floor(Fraction(dur) * fs), int(dur * fs)}
        if 0 in targets:
            continue
        mixed = rt.rng.random() < .2
        if mixed:
            s = rt.rng.choice(list(corpus))
            u = rt.rng.choice(list(corpus[s]))
            corpus[s][u] = (corpus[s][u][0], rt.rng.choice([fs + 1, 2 * fs]))
        state = (random.getstate(), torch.get_rng_state().clone(), np.random.get_state()[1].copy())
        lens = {s: {u: [len(v[0]), v[1]] for u, v in d.items()} for s, d in corpus.items()}
        rt.inputs(num_sources=k, duration_s=dur, seed=seed, corpus=lens)
        rt.count()
        # speakers
        st, sp = rt.call(choose, Fake(corpus, None, []), k, random.Random(seed))
        if k > ns:
            rt.require(st == "raise" and isinstance(sp, ValueError), "too few speakers are refused", repr(sp))
        else:
            rt.require(st != "raise" and len(sp) == k and len(set(sp)) == k and set(sp) <= set(corpus), "distinct speakers of the corpus", sp if st != "raise" else repr(sp))
        r = random.Random(seed)
        st, y = rt.call(load, dataset_factory=factory, num_sources=k, duration_s=dur, rng=r)
        rates = {corpus[s][u][1] for s, u in log}
        after = r.getstate()
        if k > ns:
            rt.require(st == "raise" and isinstance(y, ValueError), "too few speakers are refused", repr(y))
        elif len(rates) > 1:
            rt.require(st == "raise" and isinstance(y, ValueError), "mixed rates are rejected", "accepted" if st != "raise" else repr(y), sorted(rates))
        else:
            if st == "raise":
                rt.viol("a request that can be met is not refused", None, "signals", f"{type(y).__name__}: {y}")
            sig, rate, info = y
            rt.require(rate == next(iter(rates)) and isinstance(rate, int), "the rate is that of the audio", rate, sorted(rates))
            t = {math.floor(Fraction(dur) * rate), int(dur * rate)}
            rt.require(sig.ndim == 2 and sig.shape[0] == k and sig.shape[1] in t, "one row per source, floor(duration x rate) samples", list(sig.shape), [k, sorted(t)])
            rt.require(len(info) == k and len({a for a, _ in info}) == k and {a for a, _ in info} <= set(corpus), "the speakers are distinct", [a for a, _ in info])
            for j, (a, ids) in enumerate(info):
                judge(rt, f"source {j}", sig[j], ids, [u for s, u in log if s == a], corpus[a], sig.shape[1], len(corpus[a]))
            order = [a for a, _ in info]
            rt.require([s for s, _ in log] == sorted([s for s, _ in log], key=order.index), "speakers are loaded one after the other", log)
            log2, log[:] = list(log), []
            st2, z = rt.call(load, dataset_factory=factory, num_sources=k, duration_s=dur, rng=random.Random(seed))
            rt.require(st2 != "raise" and torch.equal(z[0], sig) and z[2] == info and log == log2, "the same generator gives the same signals", log, log2)
        now = (random.getstate(), torch.get_rng_state(), np.random.get_state()[1])
        rt.require(now[0] == state[0] and torch.equal(now[1], state[1]) and bool((now[2] == state[2]).all()), "only the generator passed in is used", "global generator moved")
        if fixed is None:
            continue
        s = rt.rng.choice(list(corpus))
        t = rt.rng.choice([1, want, rt.rng.randrange(1, 200)])
        log[:] = []
        rt.inputs(fn="_load_fixed_length_signal", target_samples=t, seed=seed, utterances=lens[s])
        st, y = rt.call(fixed, Fake(corpus, s, log), target_samples=t, rng_py=random.Random(seed))
        if st == "raise":
            rt.viol("a request that can be met is not refused", None, "signal", f"{type(y).__name__}: {y}")
        judge(rt, "fixed", y[0], y[1], [u for _, u in log], corpus[s], t, len(corpus[s]))
        if len(corpus[s]) == 9 and len(y[1]) >= 9:
            seen_orders.add(tuple(y[1][:9]))
        st, z = rt.call(fixed, Fake(corpus, s, []), target_samples=t, rng_py=random.Random(seed))
        rt.require(st != "raise" and torch.equal(z[0], y[0]) and z[1] == y[1], "fixed: the same generator gives the same signal", z[1] if st != "raise" else repr(z), y[1])
        now = (random.getstate(), torch.get_rng_state(), np.random.get_state()[1])
        rt.require(now[0] == state[0] and torch.equal(now[1], state[1]) and bool((now[2] == state[2]).all()), "only the generator passed in is used", "global generator moved")
    # no speakers, no utterances
    Fake = make(rt, Base, {}, False)
    st, y = rt.call(choose, Fake({}, None, []), 1, random.Random(0))
    rt.require(st == "raise", "no speakers: refused", repr(y))
    Fake = make(rt, Base, {"a": {}}, False)
    st, y = rt.call(load, dataset_factory=lambda sp=None: Fake({"a": {}}, sp, []), num_sources=1, duration_s=1.0, rng=random.Random(0))
    rt.require(st == "raise", "a speaker without utterances is refused", repr(y))
    if fixed is not None:
        st, y = rt.call(fixed, Fake({"a": {}}, "a", []), target_samples=5, rng_py=random.Random(0))
        rt.require(st == "raise", "fixed: a speaker without utterances is refused", repr(y))
