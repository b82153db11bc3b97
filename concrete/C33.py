"""C33 runtime contracts: attribution notices."""
import dataclasses, pathlib, types
from collections import OrderedDict, ChainMap

REQ = ("dataset", "source", "license_name", "license_url", "required_attribution")
ALPHA = "abcXYZ0189 -_.:/()é日本%{}'\"<>&\\"


def run(rt):
    from torchrir.io import save_attribution_file
    from torchrir.datasets.attribution import attribution_for, default_modification_notes, DatasetAttribution
    tmp = pathlib.Path(rt.tmpdir())

    def word():
        if rt.strs and rt.rng.random() < .1:
            w = rt.rng.choice(rt.strs)
            if w.strip() and "\n" not in w:
                return w
        return "".join(rt.rng.choice(ALPHA) for _ in range(rt.rng.randrange(1, 25))).strip() or "x"

    for i in rt.rounds(600, 6000, .9):
        v = {k: word() for k in REQ}
        for k in list(v):
            if rt.rng.random() < .15:                   # equal values, empty values, already used ones
                v[k] = rt.rng.choice([v["dataset"], "", "Subset", "CC BY 4.0"])
        m = rt.rng.random()
        sub = word() if m < .5 else None
        if m < .7:
            v["subset"] = sub
        n = rt.rng.choice([0, 1, 2, 3, 5, 12, 40])
        notes = [word() for _ in range(n)]
        if n > 2 and rt.rng.random() < .5:
            notes[-1] = notes[0]
            if rt.rng.random() < .5:
                notes[1] = notes[0]
        if n and rt.rng.random() < .1:
            notes[rt.rng.randrange(n)] = ""
        form = rt.rng.choice(["dict", "ordered", "proxy", "chain", "to_dict", "dataclass", "own"])
        missing = rt.rng.sample(REQ, rt.rng.choice([1, 1, 2, 5])) if rt.rng.random() < .3 and form not in ("own",) else []
        for k in missing:
            v.pop(k)
        if rt.rng.random() < .3 and form != "own":
            v["other"] = 3
        items = list(v.items())
        rt.rng.shuffle(items)
        d = dict(items)
        if form == "dict":
            obj = d
        elif form == "ordered":
            obj = OrderedDict(d)
        elif form == "proxy":
            obj = types.MappingProxyType(d)
        elif form == "chain":
            obj = ChainMap({k: x for k, x in d.items() if len(k) % 2}, {k: x for k, x in d.items() if not len(k) % 2})
        elif form == "to_dict":
            obj = types.SimpleNamespace(to_dict=lambda d=d: dict(d))
        elif form == "dataclass":
            obj = dataclasses.make_dataclass("Info", list(d))(**d)
        else:
            obj = DatasetAttribution(dataset_key="k", dataset=v["dataset"], source=v["source"], license_name=v["license_name"], license_url=v["license_url"], required_attribution=v["required_attribution"], subset=v.get("subset"))
        out = tmp / f"d{i}" / rt.rng.choice(["", "a", "a/b"])
        if rt.rng.random() < .4:
            out.mkdir(parents=True)
        name = rt.rng.choice([None, "N.txt", "x y.md"])
        rt.inputs(form=form, values=v, missing=missing, notes=notes, name=name)
        rt.count()
        kw = {} if name is None else {"attribution_name": name}
        path = out / (name or "ATTRIBUTION.txt")
        old = None
        if rt.rng.random() < .3:
            out.mkdir(parents=True, exist_ok=True)
            old = "an earlier notice\n" * 50
            path.write_text(old)
        before, dbefore = list(notes), dict(d)
        given = notes if rt.rng.random() < .8 else tuple(notes)
        if missing:
            rt.rejects("attribution data lacking a required field is rejected", save_attribution_file, out_dir=out, dataset_attribution=obj, modifications=given, exc=(ValueError, KeyError), **kw)
            rt.require((path.read_text() if path.exists() else None) == old, "nothing is written for rejected data", sorted(str(p) for p in out.rglob("*")) if out.exists() else [], "no file, or the earlier one")
            continue
        y = rt.ok("complete attribution data is accepted", save_attribution_file, out_dir=out, dataset_attribution=obj, modifications=given, **kw)
        if y is None:
            continue
        rt.require(pathlib.Path(y) == path and path.is_file(), "the notice's path is returned", y, path)
        if not path.is_file():
            continue
        text = path.read_text(encoding="utf-8")
        lines = text.splitlines()
        for k in REQ:
            rt.require(v[k] in text, f"the notice names the {k}", text, v[k])
        if v.get("subset") is not None:
            rt.require(any("subset" in ln.lower() and v["subset"] in ln for ln in lines), "the notice names the subset", text, v["subset"])
        # the notes: one line each, consecutive, in order, exactly once
        pos = [j for j in range(len(lines) - n + 1) if all(lines[j + q].endswith(notes[q]) and len(lines[j + q]) - len(notes[q]) <= 8 for q in range(n))]
        rt.require(bool(pos), "every note is listed, in order", lines, notes)
        for q in set(notes):
            if len(q) > 6 and q not in v.values():
                rt.require(sum(ln.endswith(q) for ln in lines) >= notes.count(q), "no note is dropped", lines, q)
        # labelled fields
        for k, lab in (("dataset", "Dataset"), ("source", "Source"), ("license_name", "License"), ("license_url", "License URL"), ("required_attribution", "Required attribution")):
            rt.require(any(ln.startswith(lab) and ln.endswith(v[k]) for ln in lines), f"{k} is stated under its own label", lines, v[k])
        rt.require(list(given) == before and d == dbefore, "the caller's data is unchanged", (given, d), (before, dbefore))

    for o in (3, None, "text", ["dataset"], object()):
        rt.inputs(attribution=repr(o))
        rt.count()
        rt.rejects("other objects are no attribution data", save_attribution_file, out_dir=tmp / "no", dataset_attribution=o, modifications=["a"], exc=(TypeError, ValueError))
        rt.require(not (tmp / "no" / "ATTRIBUTION.txt").exists(), "nothing is written then", None, None)
    want = {"cmu_arctic": ("CMU ARCTIC", "festvox.org/cmu_arctic", ("Carnegie Mellon",)), "librispeech": ("LibriSpeech", "openslr.org/12", ("Panayotov", "Chen", "Povey", "Khudanpur"))}
    for k, (ds, src, who) in want.items():
        for form in (k, k.upper(), k.title()):
            for sub in (None, "train-clean-100"):
                rt.inputs(dataset=form, subset=sub)
                rt.count()
                y = rt.ok("supported datasets report their licence", attribution_for, form, sub)
                if y is None:
                    continue
                rt.require(y.dataset_key == k and ds in y.dataset and src in y.source and y.attribution_required is True, "licence data of the dataset", y, want[k])
                rt.require(all(w in y.required_attribution for w in who), "required attribution of the dataset", y.required_attribution, who)
                rt.require(y.license_url.startswith("http") and ("creativecommons.org/licenses/by/4.0" in y.license_url and "CC BY 4.0" in y.license_name if k == "librispeech" else "festvox" in y.license_url and "attribution required" in y.license_name), "licence of the dataset", (y.license_name, y.license_url), None)
                rt.require(y.subset == (sub if k == "librispeech" else None), "subset of the dataset", y.subset, sub)
                e = rt.ok("its licence data makes a notice", save_attribution_file, out_dir=tmp / "own", dataset_attribution=y, modifications=default_modification_notes(dynamic=True))
                if e is not None and k == "librispeech" and sub:
                    rt.require(sub in e.read_text(), "the notice names the subset", e.read_text(), sub)
    for i in rt.rounds(60, 400, .5):
        s = word() if rt.rng.random() < .6 else rt.rng.choice(["cmu-arctic", "cmuarctic", "librispeech ", " cmu_arctic", "libri", "cmu", "librispeech_x", "", "cmu_arctic_bdl", "mini_librispeech"])
        rt.inputs(dataset=s)
        rt.count()
        if s.lower() not in want:
            rt.rejects("unsupported datasets are rejected", attribution_for, s, exc=(ValueError,))
    for dyn in (True, False):
        a, b = default_modification_notes(dynamic=dyn), default_modification_notes(dynamic=dyn)
        rt.inputs(dynamic=dyn)
        rt.count()
        a.append("mine")
        c = default_modification_notes(dynamic=dyn)
        rt.require(c == b and any("ynamic" in x for x in c) == dyn and any("tatic" in x for x in c) == (not dyn) and all(x.strip() for x in c), "default notes describe the kind of responses", c, dyn)
    # the datasets' own reports
    Cmu, Lib = rt.get("torchrir.datasets:CmuArcticDataset", False), rt.get("torchrir.datasets:LibriSpeechDataset", False)
    for cls, k in ((Cmu, "cmu_arctic"), (Lib, "librispeech")):
        if cls is None:
            continue
        o = object.__new__(cls)
        o.subset = "dev-clean"
        rt.inputs(dataset=k)
        rt.count()
        y = rt.ok("a dataset reports its licence", o.attribution_info)
        if y is not None:
            rt.require(y == attribution_for(k, "dev-clean"), "a dataset reports its own licence", y, k)
