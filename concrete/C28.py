"""C28 runtime contracts: collation pads without losing, reordering or mixing items."""
import copy
from dataclasses import dataclass
import numpy as np, torch


def run(rt):
    collate = rt.get("torchrir.datasets:collate_dataset_items")
    from torchrir.datasets import DatasetItem

    @dataclass(frozen=True)
    class Rich(DatasetItem):
        metadata: object = None

    hint = [i for i in rt.ints if 0 <= i < 200]
    for i in rt.rounds(4000, 40000, .6):
        n = rt.rng.choice([0, 1, 1, 2, 3, rt.rng.randint(2, 12)] + [h for h in hint if h < 40])
        L = rt.rng.choice([1, 3, 17, 60])
        lens = [rt.rng.choice([0, 1, L, rt.rng.randint(0, L)] + hint[:3]) for _ in range(n)]
        dt = rt.rng.choice([torch.float32, torch.float64, torch.float32, torch.int16])
        sr = rt.rng.choice([8000, 16000, 44100])
        mixed = n > 1 and rt.rng.random() < .15
        odd = rt.rng.randrange(n) if n else 0
        lower = rt.rng.random() < .3
        rich = rt.rng.random() < .5
        items = []
        for k in range(n):
            a = torch.as_tensor(rt.np.uniform(-1, 1, lens[k])) if dt.is_floating_point else torch.as_tensor(rt.np.integers(-99, 99, lens[k]))
            a = a.to(dt)
            if dt is torch.float64 and k and lower and rt.rng.random() < .5:
                a = a.float()
            if lens[k] and rt.rng.random() < .1:
                a = torch.stack([a, a], -1)[:, 0]
            cls = Rich if rich and rt.rng.random() < .8 else DatasetItem
            kw = {"metadata": rt.rng.choice([{"k": k, "l": [k]}, {"k": k, "l": [k]}, {}, 0, "", [], None, f"m{k}", k, (k, 1.5)])} if cls is Rich else {}
            items.append(cls(audio=a, sample_rate=sr + (1 if mixed and k == odd else 0), utterance_id=rt.rng.choice([f"u{k}", "same", ""]), text=rt.rng.choice([None, f"t{k}", ""]), speaker=rt.rng.choice([None, f"s{k}", "spk"]), **kw))
        pad = rt.rng.choice([None, 0.0, -1.0, 7.0] + [float(h) for h in hint[:2]])
        keep = rt.rng.choice([None, True, False])
        kw = {k: v for k, v in (("pad_value", pad), ("keep_metadata", keep)) if v is not None}
        rt.inputs(lengths=lens, rates=[x.sample_rate for x in items], dtype=str(dt), rich=[type(x).__name__ for x in items], **kw)
        rt.count()
        before = [(x.audio.clone(), copy.deepcopy(getattr(x, "metadata", None))) for x in items]
        given = items if rt.rng.random() < .5 else tuple(items) if rt.rng.random() < .5 else (x for x in items)
        if n == 0 or mixed:
            rt.rejects("empty batches and mixed sampling rates are rejected", collate, given, exc=(ValueError,), **kw)
            continue
        b = rt.ok("a batch is collated", collate, given, **kw)
        if b is None:
            continue
        rt.require(tuple(b.audio.shape) == (n, max(lens)) and b.audio.dtype is dt, "one row per item, as long as the longest, in the items' dtype", (tuple(b.audio.shape), str(b.audio.dtype)), ((n, max(lens)), str(dt)))
        rt.require(b.lengths.tolist() == lens and not b.lengths.is_floating_point(), "the true lengths", b.lengths, lens)
        want = torch.full((n, max(lens)), pad if pad is not None else 0.0).to(dt)
        for k in range(n):
            want[k, :lens[k]] = before[k][0]
        rt.require(b.audio.shape == want.shape and torch.equal(b.audio, want), "samples first, then only padding", b.audio, want)
        rt.require(b.sample_rate == sr, "the common rate", b.sample_rate, sr)
        for f, a in (("utterance_ids", "utterance_id"), ("texts", "text"), ("speakers", "speaker")):
            rt.require(list(getattr(b, f)) == [getattr(x, a) for x in items], f"{f} in item order", getattr(b, f), [getattr(x, a) for x in items])
        if keep:
            rt.require(list(b.metadata) == [getattr(x, "metadata", None) for x in items], "metadata in item order", b.metadata, [m for _, m in before])
        else:
            rt.require(b.metadata is None, "metadata only on request", b.metadata)
        b.audio.zero_()
        rt.require(all(torch.equal(x.audio, c[0]) and getattr(x, "metadata", None) == c[1] for x, c in zip(items, before)), "the items are not modified, nor shared with the batch")
