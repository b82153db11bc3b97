"""C27 runtime contracts: both loaders on generated trees — quotes, spaces, blank lines, missing and extra audio files."""
import pathlib, shutil
import numpy as np, soundfile as sf

SPEAKERS = "aew ahw aup awb axb bdl clb eey fem gka jmk ksp ljm lnh rms rxr slp slt".split()
SUBSETS = "dev-clean dev-other test-clean test-other train-clean-100 train-clean-360 train-other-500".split()
WORDS = ["HELLO", "it's", "a", "b-c", "(aside)", "semi;colon", "x.", "naïve", "日本", "tab\tbed", '"quoted"', '"', "--", "two  spaces", "1"]


def sentence(rt):
    return " ".join(rt.rng.choice(WORDS) for _ in range(rt.rng.choice([1, 1, 2, 5, 9])))


def tone(rt, n):
    return rt.np.uniform(-.9, .9, n).astype(np.float32)


def run(rt):
    Cmu = rt.get("torchrir.datasets:CmuArcticDataset")
    Libri = rt.get("torchrir.datasets:LibriSpeechDataset")
    Base = rt.get("torchrir.datasets.base:BaseDataset")
    top = pathlib.Path(rt.tmpdir())
    fs_ = [8000, 16000, 22050]

    def check(ds, want, rate, speaker_of, audio):
        """want: (utterance, text, ...) in order"""
        got = list(ds.available_sentences())
        rt.require([s.utterance_id for s in got] == [w[0] for w in want], "the available utterances are the transcript entries with audio, in order",
                   [s.utterance_id for s in got], [w[0] for w in want])
        rt.require([s.text for s in got] == [w[1] for w in want], "texts are those of the transcript lines", [s.text for s in got], [w[1] for w in want])
        rt.require(len(ds) == len(want), "the length is the number of available utterances", len(ds), len(want))
        idx = list(range(len(want)))
        for i in (idx if len(idx) < 4 else rt.rng.sample(idx, 3) + [0, len(idx) - 1]):
            it = ds[i]
            w = want[i]
            rt.require((it.utterance_id, it.text) == w[:2], "item i has the identifier and text of utterance i", (it.utterance_id, it.text), w[:2])
            rt.require(it.speaker == speaker_of(w), "item i has the speaker of utterance i", it.speaker, speaker_of(w))
            rt.require(it.sample_rate == rate, "item i has the rate of its file", it.sample_rate, rate)
            a = np.asarray(it.audio)
            x = audio[w[0]]
            rt.require(a.shape == x.shape and np.allclose(a, x, atol=2e-4), "item i has the audio of utterance i", a.shape, x.shape)
            b, r2 = ds.load_audio(w[0])
            rt.require(np.array_equal(np.asarray(b), a) and r2 == rate, "load_audio reads the same file", r2, rate)
        if want:
            last = ds[-1]
            rt.require(last.utterance_id == want[-1][0], "a negative index counts from the end", last.utterance_id, want[-1][0])
        rt.rejects("an index out of range is refused", lambda: ds[len(want)], exc=IndexError)
        for bad in ("0", 0.0, None, slice(0, 1)):
            rt.rejects("only integer indices", lambda: ds[bad], exc=TypeError)
        for s, w in zip(got, want):
            if len(w) > 2:
                rt.require((s.speaker_id, s.chapter_id) == w[2:], "entries carry their speaker and chapter", (s.speaker_id, s.chapter_id), w[2:])

    class Listed(Base):
        def __init__(self, rows):
            self.rows = rows

        def available_sentences(self):
            return self.rows

        def load_audio(self, u):
            return ("audio", u), 7

    class Row:
        def __init__(self, **k):
            self.__dict__.update(k)
    for own in (None, "me", ""):
        for has in (False, True):
            rows = [Row(utterance_id=f"u{k}", text=f"t{k}", **({"speaker_id": f"s{k}"} if has else {})) for k in range(3)]
            ds = Listed(rows)
            if own is not None:
                ds.speaker = own
            rt.inputs(dataset="custom", speaker=own, sentence_speakers=has)
            rt.count()
            for k in range(3):
                it = ds[k]
                want = own if own is not None else (f"s{k}" if has else None)
                rt.require((it.utterance_id, it.text, it.audio, it.sample_rate, it.speaker) == (f"u{k}", f"t{k}", ("audio", f"u{k}"), 7, want),
                           "item i is made of the i-th utterance and the dataset's speaker", (it.utterance_id, it.text, it.speaker), (f"u{k}", f"t{k}", want))
    for i in rt.rounds(200, 2000, .9):
        root = top / f"t{i}"
        rate = rt.rng.choice(fs_)
        n = rt.rng.choice([0, 1, 2, 3, 6, 12])
        if rt.rng.random() < .5:
            spk = rt.rng.choice(SPEAKERS)
            d = root / "ARCTIC" / f"cmu_us_{spk}_arctic"
            (d / "wav").mkdir(parents=True)
            (d / "etc").mkdir()
            ids = [f"arctic_{rt.rng.choice('ab')}{k:04d}" for k in range(n)]
            rt.rng.shuffle(ids)
            lines, want, audio = [], [], {}
            for u in ids:
                t = rt.rng.choice([sentence(rt), sentence(rt), "", " " + sentence(rt) + " "])
                lines.append(rt.rng.choice(['( {} "{}" )', '({} "{}")', '( {}  "{}" )  ', ' ( {} "{}" )\t']).format(u, t))
                if rt.rng.random() < .25:
                    lines.append(rt.rng.choice(["", "   ", "\t"]))
                if rt.rng.random() < .7:
                    x = tone(rt, rt.rng.choice([1, 20, 300]))
                    sf.write(d / "wav" / f"{u}.wav", x, rate)
                    audio[u] = x
                    want.append((u, t))
            for e in rt.rng.sample(["arctic_b9999", "extra", "arctic_a000"], 2):
                sf.write(d / "wav" / f"{e}.wav", np.zeros(4, np.float32), rate)
            if ids and rt.rng.random() < .5:
                (d / "wav" / f"{ids[0]}.txt").write_text("x")
            end = rt.rng.choice(["\n", "\n", "\r\n"])
            (d / "etc" / "txt.done.data").write_bytes((end.join(lines) + rt.rng.choice(["", end])).encode("utf-8"))
            rt.inputs(loader="CMU ARCTIC", speaker=spk, lines=lines, audio=sorted(audio), rate=rate)
            rt.count()
            ds = rt.ok("an existing dataset is accepted", Cmu, rt.rng.choice([root, str(root)]), speaker=spk)
            if ds is None:
                continue
            check(ds, want, rate, lambda w: spk, audio)
            rt.require([s.utterance_id for s in ds.sentences()] == ids, "sentences() lists every transcript entry in order", [s.utterance_id for s in ds.sentences()], ids)
            rt.require(ds.list_speakers() == SPEAKERS, "the supported speakers are listed", ds.list_speakers(), SPEAKERS)
            other = rt.rng.choice([s for s in SPEAKERS if s != spk])
            rt.rejects("a missing speaker is reported", Cmu, root, speaker=other, exc=FileNotFoundError)
            rt.rejects("an unsupported speaker is rejected", Cmu, root, speaker=rt.rng.choice(["xyz", "", "BDL", "bdl "]), exc=ValueError)
        else:
            sub = rt.rng.choice(SUBSETS)
            base = root / "LibriSpeech" / sub
            base.mkdir(parents=True)
            want, audio = [], {}
            spks = rt.rng.sample(["84", "103", "1034", "19", "2", "8975"], rt.rng.choice([1, 2, 3]))
            plan = []
            for s in spks:
                for c in rt.rng.sample(["1240", "1241", "7", "123", "99999"], rt.rng.choice([1, 2])):
                    plan.append((s, c))
            rt.rng.shuffle(plan)
            per, texts = {}, {}
            for s, c in plan:
                d = base / s / c
                d.mkdir(parents=True)
                lines, rows = [], []
                order = list(range(n if rt.rng.random() < .8 else 1))
                if rt.rng.random() < .3:
                    rt.rng.shuffle(order)
                for k in order:
                    u = f"{s}-{c}-{k:04d}"
                    t = sentence(rt)
                    lines.append(u + rt.rng.choice([" ", "  "]) + t + rt.rng.choice(["", " "]))
                    if rt.rng.random() < .25:
                        lines.append(rt.rng.choice(["", "   "]))
                    if rt.rng.random() < .7:
                        x = tone(rt, rt.rng.choice([1, 20, 300]))
                        sf.write(d / f"{u}.flac", x, rate)
                        audio[u] = x
                        rows.append((u, t, s, c))
                sf.write(d / f"{s}-{c}-9999.flac", np.zeros(4, np.float32), rate)
                (d / f"{s}-{c}.trans.txt").write_text("\n".join(lines) + "\n", encoding="utf-8")
                texts[f"{s}/{c}"] = lines
                per[(s, c)] = rows
            for key in sorted(per, key=lambda k: base / k[0] / k[1] / f"{k[0]}-{k[1]}.trans.txt"):
                want += per[key]
            rt.inputs(loader="LibriSpeech", subset=sub, transcripts=texts, audio=sorted(audio), rate=rate)
            rt.count()
            ds = rt.ok("an existing dataset is accepted", Libri, rt.rng.choice([root, str(root)]), subset=sub)
            if ds is None:
                continue
            check(ds, want, rate, lambda w: w[2], audio)
            rt.require(ds.list_speakers() == sorted(spks), "the speakers present are listed", ds.list_speakers(), sorted(spks))
            one = rt.rng.choice(spks)
            ds = rt.ok("an existing speaker is accepted", Libri, root, subset=sub, speaker=one)
            check(ds, [w for w in want if w[2] == one], rate, lambda w: one, audio)
            rt.require(ds.list_speakers() == [one], "only the chosen speaker is listed", ds.list_speakers(), [one])
            rt.rejects("a missing speaker is reported", Libri, root, subset=sub, speaker="777", exc=FileNotFoundError)
            rt.rejects("a missing subset is reported", Libri, root, subset=rt.rng.choice([s for s in SUBSETS if s != sub]), exc=FileNotFoundError)
            rt.rejects("an unsupported subset is rejected", Libri, root, subset=rt.rng.choice(["dev", "", "Dev-Clean", "train-clean-460"]), exc=ValueError)
        shutil.rmtree(root)
