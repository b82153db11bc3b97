"""C33: attribution notices.  The values written are arbitrary strings (terms of the string theory), the number of notes is
symbolic; a notice is the text handed to the file, seen as lines."""
import dataclasses
import z3
from dv import core, seq, text
from dv.core import wrap, Unsupported
from dv.strs import SStr, LOWER
from dv.harness import Case
from C24 import FakePath

ID = "C33"
O = "torchrir.io.outputs:"
A = "torchrir.datasets.attribution:"
TRUSTED = ["dv/text.py, dv/strs.py (f-strings, str.join and list literals over arbitrary strings)", "pathlib.Path.write_text stores the text it is given"]
ASSUMPTIONS = ["a value given for a field is a string; formatting a string without a format specification yields that string"]
REQ = ("dataset", "source", "license_name", "license_url", "required_attribution")


def lines_of(P, t):
    """(count, items) of the lines of an assembled text; items.elem(k) is line k"""
    if not isinstance(t, text.Text):
        return None
    js = [p for p in t.parts if isinstance(p, text.Joined)]
    if len(js) == 1 and js[0].sep == "\n":
        return js[0].items
    return None


def doc(P, t, note, n):
    """position-independent facts: which values occur, and that note k occurs in line o+k for one constant o, for all k < n"""
    found = {"parts": [], "offset": None, "after": None}
    if not isinstance(t, text.Text):
        P.fail("the notice is assembled from the given values", repr(t)[:300])
        return None
    items = lines_of(P, t)
    if items is None:
        if any(isinstance(p, text.Joined) for p in t.parts):
            # several joins: notes joined on their own
            for p in t.parts:
                if isinstance(p, text.Joined):
                    k = core.fresh("k")
                    with P.given(k >= 0, k < n) as live:
                        if live:
                            try:
                                if text.contains(text.at(P, p.items, k), note(k)) and "\n" in p.sep:
                                    c = P.prove("every note is listed", p.items.count() == n)
                                    found["offset"] = 0 if c else None
                            except text.Undecided:
                                pass
                else:
                    found["parts"].append(p)
            return found
        return {"parts": t.parts, "offset": None}
    # constant lines before the notes, then line o+k for note k
    for o in range(0, 40):
        k = core.fresh("k")
        with P.given(k >= 0, k < n) as live:
            if not live:
                break
            try:
                ok = text.contains(text.at(P, items, z3.simplify(k + o)), note(k))
            except (text.Undecided, Unsupported):
                ok = False
        if ok and P.ctx.entails(items.count() >= n + o):
            found["offset"] = o
            break
    o = found["offset"] or 0
    for j in range(o):
        try:
            found["parts"] += text.parts(text.at(P, items, z3.IntVal(j)))
        except (text.Undecided, Unsupported):
            pass
    for j in range(1, 12):
        with P.given(items.count() - j >= n + o) as live:
            if live:
                try:
                    found["parts"] += text.parts(text.at(P, items, z3.simplify(items.count() - j)))
                except (text.Undecided, Unsupported):
                    pass
    return found


def has(found, s):
    return any(text.contains(text.Text([p]), s) for p in found["parts"])


class WithDict:
    def __init__(self, d):
        self.d = d

    def to_dict(self):
        return dict(self.d)


@dataclasses.dataclass
class Plain:
    dataset: object
    source: object
    license_name: object
    license_url: object
    required_attribution: object
    subset: object = None


def notice_case(form, subset):
    def fn(P):
        f = P.fn(O + "save_attribution_file")
        v = {k: SStr(f"value_{k}") for k in REQ}
        if subset == "given":
            v["subset"] = SStr("value_subset")
        elif subset == "none":
            v["subset"] = None
        if form == "mapping with more":
            v["extra"], v["dataset_key"] = SStr("more"), "x"
        obj = v if form.startswith("mapping") else WithDict(v) if form == "to_dict" else Plain(**v)
        before = dict(v)
        n = P.int("notes", 0)
        NOTE = z3.Function("NOTE", z3.IntSort(), z3.StringSort())
        note = lambda k: SStr(NOTE(core.lift(k)))
        name = "ATTRIBUTION.txt"
        log = []
        kw = {}
        if form == "to_dict":
            kw["attribution_name"] = name = "other.txt"
        st, y = P.call(f, out_dir=FakePath(log, "out"), dataset_attribution=obj, modifications=seq.SymSeq(n, note, "notes"), **kw)
        if st == "raise":
            return P.fail("complete attribution data is accepted", repr(y))
        files = [x[1] for x in log if x[0] == "file"]
        P.check("one file is written, in the output directory, under the given name", [x.name for x in files] == [f"out/{name}"], repr(log))
        P.check("its path is returned", getattr(y, "name", None) == f"out/{name}", repr(y))
        P.check("the output directory exists beforehand", any(e[0] == "mkdir" and e[1] == "out" and e[2] and e[3] for e in log[:[x[0] for x in log].index("open")]) if files else False, repr(log))
        if not files:
            return
        found = doc(P, files[-1].content, note, n.t)
        if found is None:
            return
        for k in REQ:
            P.check(f"the notice names the {k.replace('_', ' ')}", has(found, v[k]), repr(found["parts"])[:800])
        if subset == "given":
            P.check("the notice names the subset", has(found, v["subset"]), repr(found["parts"])[:800])
        P.check("every note is listed, in order, each on a line of its own", found["offset"] is not None, repr(files[-1].content)[:600])
        P.check("the caller's data is unchanged", v == before if not any(isinstance(x, SStr) for x in v.values()) else list(v) == list(before) and all(v[k] is before[k] for k in v))
    return fn


def incomplete_case(form):
    def fn(P):
        f = P.fn(O + "save_attribution_file")
        there = [P.ctx.branch(z3.Bool("has_" + k)) for k in REQ]
        if all(there):
            return
        d = {k: SStr("value_" + k) for k, h in zip(REQ, there) if h}
        d.update(other=1, subset="s")
        log = []
        st, y = P.call(f, out_dir=FakePath(log, "out"), dataset_attribution=d if form == "mapping" else WithDict(d), modifications=["a"])
        P.check("attribution data lacking a required field is rejected", st == "raise" and isinstance(y, (ValueError, KeyError)), repr(y)[:300])
        P.check("nothing is written then", not any(x[0] in ("file", "open") for x in log), repr(log))
    return fn


def other_case(P):
    f = P.fn(O + "save_attribution_file")
    for o in (3, None, "text", ["dataset"]):
        log = []
        st, y = P.call(f, out_dir=FakePath(log, "out"), dataset_attribution=o, modifications=["a"])
        P.check(f"{type(o).__name__} is no attribution data", st == "raise" and isinstance(y, (TypeError, ValueError)), repr(y)[:300])
        P.check("nothing is written then", not any(x[0] in ("file", "open") for x in log), repr(log))


TABLE = {
    "cmu_arctic": dict(dataset_key="cmu_arctic", dataset="CMU ARCTIC", source="http://www.festvox.org/cmu_arctic/", license_url="http://www.festvox.org/cmu_arctic/",
                       names=("Carnegie Mellon",), license=("attribution required",)),
    "librispeech": dict(dataset_key="librispeech", dataset="LibriSpeech (SLR12)", source="https://www.openslr.org/12", license_url="https://creativecommons.org/licenses/by/4.0/",
                        names=("Panayotov", "Chen", "Povey", "Khudanpur"), license=("CC BY 4.0",)),
}


def entry(P, y, key, subset):
    t = TABLE[key]
    for k in ("dataset_key", "dataset", "source", "license_url"):
        P.check(f"{key}: {k}", getattr(y, k, None) == t[k], repr(getattr(y, k, None)))
    P.check(f"{key}: licence", all(s in y.license_name for s in t["license"]), y.license_name)
    P.check(f"{key}: required attribution", all(s in y.required_attribution for s in t["names"]), y.required_attribution)
    P.check(f"{key}: attribution is required", y.attribution_required is True)
    P.check(f"{key}: subset", (y.subset is subset) if key == "librispeech" else y.subset is None, repr(y.subset))
    d = y.to_dict()
    P.check(f"{key}: as a mapping", set(REQ) <= set(d) and all(d[k] is getattr(y, k) or d[k] == getattr(y, k) for k in REQ), repr(d))


def table_case(P):
    """any key: its lower-case form selects the entry, every other one is rejected"""
    f = P.fn(A + "attribution_for")
    s = SStr("dataset")
    sub = SStr("subset")
    st, y = P.call(f, s, sub)
    is_ = {k: LOWER(s.t) == z3.StringVal(k) for k in TABLE}
    for k in TABLE:
        with P.given(is_[k]) as live:
            if live:
                if st == "raise":
                    P.fail(f"{k} is supported", repr(y)[:200])
                else:
                    entry(P, y, k, sub)
    with P.given(*[z3.Not(x) for x in is_.values()]) as live:
        if live:
            P.check("other datasets are rejected", st == "raise" and isinstance(y, ValueError), repr(y)[:200])


def literal_case(P):
    f = P.fn(A + "attribution_for")
    for k in TABLE:
        for form in (k, k.upper(), k.title()):
            st, y = P.call(f, form)
            if st == "raise":
                P.fail(f"{form} is supported", repr(y))
            else:
                entry(P, y, k, None)
    for bad in ("", "cmu", "libri", "timit", "librispeech "):
        st, y = P.call(f, bad)
        P.check("other datasets are rejected", st == "raise" and isinstance(y, ValueError), repr(y)[:200])


def dataset_case(P):
    cmu = P.fn("torchrir.datasets.cmu_arctic:CmuArcticDataset")
    lib = P.fn("torchrir.datasets.librispeech:LibriSpeechDataset")
    o = object.__new__(cmu)
    st, y = P.call(o.attribution_info)
    entry(P, y, "cmu_arctic", None) if st == "ok" else P.fail("CMU ARCTIC reports its licence", repr(y))
    o = object.__new__(lib)
    sub = SStr("subset")
    o.subset = sub
    st, y = P.call(o.attribution_info)
    entry(P, y, "librispeech", sub) if st == "ok" else P.fail("LibriSpeech reports its licence", repr(y))


def notes_case(P):
    f = P.fn(A + "default_modification_notes")
    for dyn in (True, False):
        st, y = P.call(f, dynamic=dyn)
        st2, y2 = P.call(f, dynamic=dyn)
        if "raise" in (st, st2):
            return P.fail("notes are returned", repr((y, y2)))
        P.check("notes are non-empty strings", isinstance(y, list) and all(isinstance(x, str) and x.strip() for x in y) and len(y) >= 2, repr(y))
        P.check("the notes name the kind of responses", any(("ynamic" in x) for x in y) == dyn and any(("tatic" in x) for x in y) == (not dyn), repr(y))
        P.check("every call returns its own list", y == y2 and y is not y2)


FS = [O + "save_attribution_file", O + "_coerce_attribution_mapping"]
FA = [A + "attribution_for", A + "DatasetAttribution.to_dict", "torchrir.datasets.cmu_arctic:CmuArcticDataset.attribution_info",
      "torchrir.datasets.librispeech:LibriSpeechDataset.attribution_info"]
CASES = [Case(f"notice from a {f}, subset {s}", notice_case(f, s), FS) for f in ("mapping", "mapping with more", "to_dict", "dataclass") for s in ("given", "none", "absent")]
CASES += [Case(f"incomplete {f}", incomplete_case(f), FS) for f in ("mapping", "to_dict")]
CASES += [Case("other objects", other_case, FS), Case("any dataset key", table_case, FA[:2]), Case("dataset keys", literal_case, FA[:2]),
          Case("dataset classes", dataset_case, FA), Case("default notes", notes_case, [A + "default_modification_notes"])]
