"""C27: dataset loaders.  The loops over transcript files and lines are executed for an arbitrary file and line; what they keep
is a filtered sequence whose every case (kept or dropped) is compared with the definition: the entry of a non-blank line is kept
exactly when its audio file exists.  Transcript lines are parsed by _parse_text_line, which has its own contract over lines
assembled from arbitrary pieces."""
import pathlib as _pathlib, types
import z3
from dv import core, harness, seq, strs, text
from dv.core import wrap, fresh, Unsupported, I, B
from dv.harness import Case
from dv.strs import SStr, STRIP

ID = "C27"
S = z3.StringSort()
CM, LM, BM = "torchrir.datasets.cmu_arctic", "torchrir.datasets.librispeech", "torchrir.datasets.base"
SPEAKERS = "aew ahw aup awb axb bdl clb eey fem gka jmk ksp ljm lnh rms rxr slp slt".split()
SUBSETS = "dev-clean dev-other test-clean test-other train-clean-100 train-clean-360 train-other-500".split()
TRUSTED = ["pathlib (Path.glob/rglob list exactly the existing matching files, in no particular order; exists; / and .name/.stem/.parent), text file iteration yields the file's lines",
           "str.strip as an uninterpreted function of the line; str.partition/replace/strip/split/rsplit on lines assembled from pieces with known excluded characters (class Rope below); the string theory of z3 for str.split of identifiers"]
ASSUMPTIONS = ["audio decoding is io.audio.load (C23); download and extraction are C25/C26",
               "LibriSpeech identifiers have the form speaker-chapter-number of their directory",
               "transcript lines have the distributed form: ( identifier \"text\" ) resp. identifier text"]
EX = z3.Function("EXISTS", S, B)
UTT, TEXT_ = z3.Function("UTT", S, S), z3.Function("TEXT", S, S)
LINE, NL = z3.Function("LINE", S, I, S), z3.Function("LINES", S, I)
core.AXIOMS["LINES"] = lambda a: [a >= 0]


def cat(*ps):
    ps = text.Text([SStr(p) if z3.is_expr(p) else p for p in ps]).parts
    out = []

    def flat(t):
        if z3.is_string_value(t):
            out.append(t.as_string())
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for q in t.children():
                flat(q)
        else:
            out.append(SStr(t))
    for p in ps:
        flat(strs.term(p))
    ps = [strs.term(p) for p in text.Text(out).parts]
    return z3.Concat(*ps) if len(ps) > 1 else (ps[0] if ps else z3.StringVal(""))


class DPath:
    """a path below an arbitrary root: components are strings, known or arbitrary"""

    def __init__(self, *a):
        if len(a) == 1 and isinstance(a[0], DPath):
            self.up, self.comp, self.stem_ = a[0].up, a[0].comp, a[0].stem_
            return
        if len(a) == 1:
            self.up, self.comp, self.stem_ = None, a[0], None
            return
        self.up, self.comp, self.stem_ = a[0], a[1], None
        if len(a) > 2:
            self.stem_ = a[2]

    def term(self):
        c = self.comp
        c = cat(*c.parts) if isinstance(c, text.Text) else strs.term(c)
        return cat(c) if self.up is None else cat(self.up.term(), "/", c)

    def __truediv__(self, o):
        if isinstance(o, (str, text.Text)):
            p = self
            if type(o) is str:
                for q in o.split("/"):
                    p = DPath(p, q)
                return p
            return DPath(p, o)
        return NotImplemented

    def joinpath(self, *o):
        p = self
        for q in o:
            p = p / q
        return p

    @property
    def parent(self):
        if self.up is None:
            raise Unsupported("parent of the root")
        return self.up

    @property
    def name(self):
        c = self.comp
        return SStr(cat(*c.parts)) if isinstance(c, text.Text) else c

    @property
    def stem(self):
        if self.stem_ is None:
            raise Unsupported("stem of this path")
        return self.stem_

    def exists(self):
        return core.ctx().branch(EX(self.term()))
    is_file = is_dir = exists

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        if mode not in ("r", "rt"):
            raise Unsupported(f"open {mode}")
        if errors is not None or newline is not None:
            raise Unsupported("open with special arguments")
        if not isinstance(encoding, str) or encoding.lower().replace("_", "-") not in ("utf-8", "utf8"):
            raise Unsupported(f"transcripts are UTF-8, opened with {encoding}")
        return Lines(self.term())

    def glob(self, pattern):
        if pattern in ("*.wav", "*.flac"):
            return Audio(self, pattern[1:])
        if pattern == "**/*.trans.txt":
            return self.rglob("*.trans.txt")
        raise Unsupported(f"glob {pattern}")

    def rglob(self, pattern):
        if pattern != "*.trans.txt":
            raise Unsupported(f"rglob {pattern}")
        return Transcripts(self)

    def __str__(self):
        return str(self.term())

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Path.{n}")

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported("path comparison")


class Lines(seq.SymSeq):
    def __init__(self, t):
        seq.SymSeq.__init__(self, wrap(NL(t)), lambda j: SStr(LINE(t, j)), "lines")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def readlines(self):
        return seq.SymSeq(wrap(self.n), self.fn, "lines")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"file.{n}")


class Audio(seq.SymSeq):
    """the audio files of a directory, in any order: STEM(dir, j) and back by IDX(dir, stem)"""

    def __init__(self, d, ext):
        t = d.term()
        STEM, CNT, IDX = z3.Function("STEM", S, I, S), z3.Function("AUDIO_FILES", S, I), z3.Function("IDX", S, S, I)
        n = CNT(t)
        c = core.ctx()
        c.assume(n >= 0)
        c.add_ufact(core.UFact(1, lambda j: z3.Implies(z3.And(j >= 0, j < n), EX(cat(t, "/", STEM(t, j), ext))), triggers=[("STEM", (1,))]))
        seq.SymSeq.__init__(self, wrap(n), lambda j: DPath(d, text.Text([SStr(STEM(t, j)), ext]), SStr(STEM(t, j))), "audio")


def glob_fact(d, x, ext):
    """an existing audio file is listed"""
    STEM, CNT, IDX = z3.Function("STEM", S, I, S), z3.Function("AUDIO_FILES", S, I), z3.Function("IDX", S, S, I)
    i = IDX(d, x)
    return i, z3.Implies(EX(cat(d, "/", x, ext)), z3.And(i >= 0, i < CNT(d), STEM(d, i) == x))


SPK, CHAP, TRN, CHAPTERS = z3.Function("SPK", S, I, S), z3.Function("CHAP", S, I, S), z3.Function("TRN", S, I, S), z3.Function("CHAPTERS", S, I)
core.AXIOMS["CHAPTERS"] = lambda a: [a >= 0]


def chapter(root, k):
    t = root.term()
    return DPath(DPath(root, SStr(SPK(t, k))), SStr(CHAP(t, k)))


class Transcripts(seq.SymSeq):
    """transcript files below a directory: chapter k holds one; the k-th in sorted order, listed in some other order"""

    def __init__(self, root, order=None):
        t = root.term()
        PERM = z3.Function("LISTED", S, I, I)
        self.root, self.ordered = root, order is not None
        seq.SymSeq.__init__(self, wrap(CHAPTERS(t)), lambda k: self.path(k if self.ordered else PERM(t, k)), "transcripts")

    def path(self, k):
        return DPath(chapter(self.root, k), text.Text([SStr(TRN(self.root.term(), k)), ".trans.txt"]))

    def __dv_sorted__(self):
        return Transcripts(self.root, order=True)

    def copy(self):
        return self


def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


harness.SHIMS.update({"pathlib": module("pathlib", Path=DPath, PurePath=DPath)})
import C26  # noqa: E402,F401  (logging, tarfile, urllib)
harness.SHIMS["pathlib"] = module("pathlib", Path=DPath, PurePath=DPath, PosixPath=DPath)


def parse_contract(P):
    return P.stub("_parse_text_line", lambda real: (lambda line: (SStr(UTT(strs.term(line))), SStr(TEXT_(strs.term(line))))))


def make(P, which, speaker=None, valid=True):
    root = DPath("ROOT")
    if which == "cmu":
        P.mod(CM)
        return root, P.mod(CM).CmuArcticDataset, dict(speaker=speaker or "bdl")
    P.mod(LM)
    return root, P.mod(LM).LibriSpeechDataset, dict(subset="dev-clean", speaker=speaker)


def built(P, which, speaker=None):
    root, cls, kw = make(P, which, speaker)
    st, ds = P.call(cls, root, **kw)
    if st == "raise":
        raise core.Infeasible()          # construction has its own contract
    return root, ds


def constructed(which, arg):
    """unsupported names and missing data are rejected, everything else is accepted"""
    def run(P):
        root, cls, kw = make(P, which)
        names = SPEAKERS if which == "cmu" else SUBSETS
        x = SStr("name")
        kw["speaker" if which == "cmu" else "subset"] = x
        if arg == "speaker":
            kw["speaker"] = SStr("who")
            P.assume(z3.String("who") != z3.StringVal(""))
        st, e = P.call(cls, root, **kw)
        known = z3.Or(*[x.t == z3.StringVal(n) for n in names])
        if which == "cmu":
            there = EX(cat("ROOT/ARCTIC/cmu_us_", x.t, "_arctic"))
        else:
            there = EX(cat("ROOT/LibriSpeech/", x.t))
            if arg == "speaker":
                there = z3.And(there, EX(cat("ROOT/LibriSpeech/", x.t, "/", z3.String("who"))))
        if st != "raise":
            P.prove("only supported names are accepted", known)
            P.prove("only existing data is accepted", there)
        elif isinstance(e, ValueError) and not isinstance(e, UnicodeError):
            P.prove("supported names are not refused", z3.Not(known))
        elif isinstance(e, FileNotFoundError):
            P.prove("a missing dataset is only reported for supported names", known)
            P.prove("existing data is not reported missing", z3.Not(there))
        else:
            P.fail("rejections are ValueError or FileNotFoundError", repr(e))
    return run


def listed(which, speaker=None):
    def run(P):
        root, ds = built(P, which, speaker)
        if not parse_contract(P):
            raise Unsupported("the line parser is gone")
        st, r = P.call(ds.available_sentences)
        if st == "raise":
            return P.fail("utterances can be listed", repr(r))
        if which == "cmu":
            d = DPath("ROOT") / "ARCTIC" / "cmu_us_bdl_arctic"
            base = None
        else:
            base = DPath("ROOT") / "LibriSpeech" / "dev-clean"
            if speaker:
                base = base / speaker
        if isinstance(r, list) and not r:
            return P.fail("an empty listing only for empty datasets", "unconditional")
        if not isinstance(r, seq.SymSeq):
            return P.fail("a list of utterances", repr(r))
        def whole(level, ks, goal_index):
            """the range of the level-th loop is that of the transcript files resp. of the lines"""
            if which != "cmu" and level == 0:
                return z3.And(goal_index >= 0, goal_index < CHAPTERS(base.term()))
            t = (d / "etc" / "txt.done.data").term() if which == "cmu" else cat(chapter(base, ks[0]).term(), "/", TRN(base.term(), ks[0]), ".trans.txt")
            return z3.And(goal_index >= 0, goal_index < NL(t))
        if isinstance(r, seq.FiltSeq):
            for a, hyps, uf, rng in seq.coverage(r):
                j = fresh("any")
                if len(a) > (1 if which == "cmu" else 2):
                    return P.fail("one pass over the transcript lines", f"{len(a)} nested loops")
                with P.given(*hyps) as on:
                    if on:
                        P.prove("every transcript line is considered", z3.substitute(rng, (a[-1], j)), hyps=[whole(len(a) - 1, a, j)])
            q = seq.choose_case(r)
        else:
            j = fresh("any")
            P.prove("every transcript line is considered", r.in_range(j), hyps=[whole(0, (), j)])
            k = fresh("k")
            P.assume(r.in_range(k))
            q = seq.FCase((k,), [], [], r.elem(k), True)
        ks = list(q.ks)
        n = 1 if which == "cmu" else 2
        if q.kept and len(ks) != n:
            return P.fail("one utterance per transcript line", f"{len(ks)} indices")
        while len(ks) < n:
            ks.append(fresh("j"))
        if which == "cmu":
            tr, dirt, ext = (d / "etc" / "txt.done.data").term(), (d / "wav").term(), ".wav"
        else:
            kd = chapter(base, ks[0])
            tr, dirt, ext = cat(kd.term(), "/", TRN(base.term(), ks[0]), ".trans.txt"), kd.term(), ".flac"
            P.assume(z3.And(ks[0] >= 0, ks[0] < CHAPTERS(base.term()))) if not q.kept else None
        j = ks[-1]
        inr = z3.And(j >= 0, j < NL(tr))
        ln = STRIP(LINE(tr, j))
        x = UTT(ln)
        i, fact = glob_fact(dirt, x, ext)
        P.assume(fact)
        keep = z3.And(inr, ln != z3.StringVal(""), EX(cat(dirt, "/", x, ext)))
        if not q.kept:
            P.prove("entries with audio are listed", z3.Not(keep), cands=[(i,), (j,)])
            return
        if n == 2:
            P.prove("entries come from the transcripts", z3.And(ks[0] >= 0, ks[0] < CHAPTERS(base.term())))
        P.prove("only transcript entries whose audio exists are listed", keep, cands=[(i,), (j,)])
        v = q.val

        def eq(label, a, t):
            a = getattr(v, a, None)
            if not isinstance(a, str):
                return P.fail(label, repr(a))
            P.prove(label, strs.term(a) == t)
        eq("the identifier of the line, in transcript order", "utterance_id", x)
        eq("the text of the line, in transcript order", "text", TEXT_(ln))
        if n == 2:
            eq("the speaker of the utterance", "speaker_id", SPK(base.term(), ks[0]))
            eq("the chapter of the utterance", "chapter_id", CHAP(base.term(), ks[0]))
    return run


# --------------------------------------------------------------------------- line parsing
class Atom:
    """an arbitrary string without the characters `no`; tight: not empty, no white space at its ends"""

    def __init__(self, name, no="", tight=False):
        self.name, self.no, self.tight = name, set(no), tight

    def __repr__(self):
        return f"<{self.name}>"


WS = " \t\n\r\f\v"


class Rope(str):
    __dv_text__ = True

    def __new__(cls, parts):
        o = str.__new__(cls, "\x00rope")
        out = []
        for p in parts:
            if type(p) is str and out and type(out[-1]) is str:
                out[-1] += p
            elif type(p) is str and not p:
                continue
            else:
                out.append(p)
        o.p = out
        return o

    def __repr__(self):
        return f"Rope{self.p}"

    def __str__(self):
        return self
    __hash__ = None

    def _find(self, sep, last=False):
        if type(sep) is not str or len(sep) != 1:
            raise Unsupported("search for several characters")
        idx = range(len(self.p) - 1, -1, -1) if last else range(len(self.p))
        for i in idx:
            q = self.p[i]
            if type(q) is str:
                j = q.rfind(sep) if last else q.find(sep)
                if j >= 0:
                    return Rope(self.p[:i] + [q[:j]]), Rope([q[j + 1:]] + self.p[i + 1:])
            elif sep not in q.no:
                raise Unsupported(f"{sep!r} may occur in {q}")
        return None

    def partition(self, sep):
        r = self._find(sep)
        return (r[0], sep, r[1]) if r else (self, "", "")

    def rpartition(self, sep):
        r = self._find(sep, True)
        return (r[0], sep, r[1]) if r else ("", "", self)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1:
                raise Unsupported("bounded split at white space")
            words, cur = [], []
            for q in self.p:
                if type(q) is str:
                    for ch in q:
                        if ch.isspace():
                            if cur:
                                words.append(Rope(cur))
                            cur = []
                        else:
                            cur.append(ch)
                elif set(WS) <= q.no and q.tight:
                    cur.append(q)
                else:
                    raise Unsupported(f"white space may occur in {q}")
            return words + ([Rope(cur)] if cur else [])
        out, rest = [], self
        while maxsplit != 0:
            r = rest._find(sep) if isinstance(rest, Rope) else None
            if not r:
                break
            out.append(r[0])
            rest, maxsplit = r[1], maxsplit - 1
        return out + [rest]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("rsplit at white space")
        out, rest = [], self
        while maxsplit != 0:
            r = rest._find(sep, True)
            if not r:
                break
            out.insert(0, r[1])
            rest, maxsplit = r[0], maxsplit - 1
        return [rest] + out

    def replace(self, a, b, count=-1):
        if type(a) is not str or len(a) != 1 or type(b) is not str or count != -1:
            raise Unsupported("replace")
        out = []
        for q in self.p:
            if type(q) is str:
                out.append(q.replace(a, b))
            elif a not in q.no:
                raise Unsupported(f"{a!r} may occur in {q}")
            else:
                out.append(q)
        return Rope(out)

    def _strip(self, chars, left, right):
        cs = WS if chars is None else chars
        ps = list(self.p)

        def end(i):
            while ps:
                q = ps[i]
                if type(q) is str:
                    q = (q.lstrip(chars) if i == 0 else q.rstrip(chars)) if chars is not None else (q.lstrip() if i == 0 else q.rstrip())
                    if q:
                        ps[i] = q
                        return
                    ps.pop(i)
                elif (q.tight and set(cs) <= q.no) or (q.tight and set(cs) <= set(WS)):
                    return
                else:
                    raise Unsupported(f"strip at {q}")
        if left:
            end(0)
        if right:
            end(-1)
        return Rope(ps)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def __eq__(self, o):
        if isinstance(o, Rope):
            return self.p == o.p
        if isinstance(o, str):
            if all(type(q) is str for q in self.p):
                return "".join(self.p) == o
            raise Unsupported("comparison of an assembled line")
        return False

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        if any(type(q) is str and q or isinstance(q, Atom) and q.tight for q in self.p):
            return True
        if not self.p:
            return False
        raise Unsupported("emptiness of an assembled line")

    def startswith(self, x, *a):
        if not a and self.p and type(x) is str and type(self.p[0]) is str and (len(self.p[0]) >= len(x) or not x.startswith(self.p[0])):
            return self.p[0].startswith(x)
        raise Unsupported("startswith")

    def endswith(self, x, *a):
        if not a and self.p and type(x) is str and type(self.p[-1]) is str and (len(self.p[-1]) >= len(x) or not x.endswith(self.p[-1])):
            return self.p[-1].endswith(x)
        raise Unsupported("endswith")

    def __contains__(self, x):
        r = None
        for q in self.p:
            if type(q) is str and type(x) is str and x in q:
                return True
        return self._find(x) is not None

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and (k.start or 0) >= 0 and (k.stop is None or k.stop < 0) and self.p:
            ps = list(self.p)
            a, b = k.start or 0, -(k.stop or 0)
            if a:
                if type(ps[0]) is not str or len(ps[0]) < a:
                    raise Unsupported("slice of an assembled line")
                ps[0] = ps[0][a:]
            if b:
                if type(ps[-1]) is not str or len(ps[-1]) < b:
                    raise Unsupported("slice of an assembled line")
                ps[-1] = ps[-1][:-b]
            return Rope(ps)
        raise Unsupported("indexing an assembled line")


def _deny(n):
    def f(self, *a, **k):
        raise Unsupported(f"str.{n} of an assembled line")
    return f


for _n in dir(str):
    if _n not in Rope.__dict__ and _n not in ("__new__", "__init__", "__class__", "__getattribute__", "__setattr__", "__delattr__", "__doc__", "__init_subclass__", "__subclasshook__", "__dir__", "__sizeof__", "__reduce__", "__reduce_ex__"):
        setattr(Rope, _n, _deny(_n))


def parsed(mod, before, mid, after, utt, txt):
    def run(P):
        f = P.fn(mod + ":_parse_text_line")
        line = Rope([before, utt, mid, txt, after]) if txt is not None else Rope([before, utt, after])
        st, r = P.call(f, line)
        if st == "raise" or not isinstance(r, tuple) or len(r) != 2:
            return P.fail("a transcript line is parsed", repr(r))
        P.check("the identifier of the line", isinstance(r[0], str) and Rope([utt]) == r[0], f"{r[0]!r} from {line!r}")
        P.check("the text of the line, unchanged", isinstance(r[1], str) and (Rope([txt]) == r[1] if txt is not None else r[1] == ""), f"{r[1]!r} from {line!r}")
    return run


# --------------------------------------------------------------------------- items
class Audio_:
    def __init__(self, of):
        self.of = of


def item(which, speaker=None):
    def run(P):
        U, TX, SP = (z3.Function(n, I, S) for n in ("ITEM_UTT", "ITEM_TEXT", "ITEM_SPK"))
        n = P.int("count", 0)
        if which == "plain":
            Base = P.mod(BM).BaseDataset

            class Own(Base):
                pass
            if speaker:
                Own.speaker = speaker
            ds = Own()
        else:
            root, ds = built(P, which, speaker)

        class Sentence:
            def __init__(self, k):
                self.utterance_id, self.text = SStr(U(k)), SStr(TX(k))
                if which != "cmu":
                    self.speaker_id = SStr(SP(k))
        m = P.int("other_count", 0)
        other = (Own if which == "plain" else type(ds)).__new__(Own if which == "plain" else type(ds))
        for a in ("speaker", "root", "subset"):
            if hasattr(ds, a) and a not in type(ds).__dict__:
                setattr(other, a, getattr(ds, a))
        other.available_sentences = lambda: seq.SymSeq(m, Sentence, "others")
        st, ln = P.call(type(other).__len__, other)
        P.prove("another dataset has its own utterances", core.lift(ln) == m.t) if st != "raise" else P.fail("another dataset", repr(ln))
        calls = [0]

        def available():
            calls[0] += 1
            return seq.SymSeq(n, Sentence, "sentences")

        def load(u):
            return Audio_(strs.term(u)), ("rate", strs.term(u))
        ds.available_sentences, ds.load_audio = available, load
        st, ln = P.call(type(ds).__len__, ds)
        if st == "raise":
            return P.fail("the length is available", repr(ln))
        P.prove("the length is the number of available utterances", core.lift(ln) == n.t)
        i = P.int("index")
        st, it = P.call(type(ds).__getitem__, ds, i)
        if st == "raise":
            P.check("an index out of range is an IndexError", isinstance(it, IndexError), repr(it))
            P.prove("every available utterance has an item", z3.Not(z3.And(i.t >= 0, i.t < n.t)))
            return
        P.prove("only available utterances have items", z3.And(i.t >= -n.t, i.t < n.t))
        k = z3.If(i.t < 0, i.t + n.t, i.t)
        P.prove("the identifier of the i-th utterance", strs.term(it.utterance_id) == U(k))
        P.prove("the text of the i-th utterance", strs.term(it.text) == TX(k))
        P.check("audio and rate are loaded together", isinstance(it.audio, Audio_) and isinstance(it.sample_rate, tuple) and it.sample_rate[1].eq(it.audio.of), repr(it))
        P.prove("the audio of the i-th utterance", it.audio.of == U(k))
        if speaker or which == "cmu":
            P.check("the speaker of the dataset", it.speaker == (speaker or "bdl"), repr(it.speaker))
        else:
            P.prove("the speaker of the i-th utterance", strs.term(it.speaker) == SP(k))
        P.check("the transcript is read once", calls[0] == 1, repr(calls))
        for bad in ("0", 1.0, None, slice(0, 1)):
            st, e = P.call(type(ds).__getitem__, ds, bad)
            P.check("other indices are rejected", st == "raise" and isinstance(e, TypeError), f"{bad!r}: {e!r}")
    return run


def audio_path(which):
    """the audio of an identifier is read from its own file"""
    def run(P):
        root, ds = built(P, which)
        got = []

        def spec(real):
            return lambda path, *a, **k: (got.append((path, a, k)), ("audio", "rate"))[1]
        if not (P.stub("load", spec) + P.stub("load_audio", spec)):
            raise Unsupported("no audio reader")
        if which == "cmu":
            u = SStr("utt")
            want = cat("ROOT/ARCTIC/cmu_us_bdl_arctic/wav/", u.t, ".wav")
        else:
            s, c, m = Atom("speaker", "-/", True), Atom("chapter", "-/", True), Atom("number", "/", True)
            u, want = Rope([s, "-", c, "-", m]), None
        st, r = P.call(ds.load_audio, u)
        if st == "raise":
            return P.fail("the audio is read", repr(r))
        ok = len(got) == 1 and isinstance(got[0][0], DPath) and not got[0][1] and not got[0][2]
        if not P.check("one file is read, as it is", ok, repr(got)):
            return
        P.check("audio and rate are returned", r == ("audio", "rate"), repr(r))
        p = got[0][0]
        if want is not None:
            P.prove("the file of the identifier", p.term() == want)
        else:
            comps = []
            while p is not None:
                comps.insert(0, p.comp)
                p = p.up
            if not P.check("below the subset", comps[:-3] == ["ROOT", "LibriSpeech", "dev-clean"], repr(comps)):
                return
            got3 = [flatten(x) for x in comps[-3:]]
            P.check("in the speaker's directory", got3[0] == [s], repr(got3))
            P.check("in the chapter's directory", got3[1] == [c], repr(got3))
            P.check("the file of the identifier", got3[2] == [s, "-", c, "-", m, ".flac"], repr(got3))
    return run


def flatten(x):
    """pieces of an assembled path component"""
    if isinstance(x, text.Text):
        return Rope([q for y in x.parts for q in (y.p if isinstance(y, Rope) else [y])]).p
    return x.p if isinstance(x, Rope) else [x]


FB = [BM + ":BaseDataset.__getitem__", BM + ":BaseDataset.__len__", BM + ":BaseDataset._get_sentences"]
CASES = [Case("CMU ARCTIC construction", constructed("cmu", None), [CM + ":CmuArcticDataset.__init__"]),
         Case("LibriSpeech construction", constructed("libri", None), [LM + ":LibriSpeechDataset.__init__"]),
         Case("LibriSpeech construction with a speaker", constructed("libri", "speaker"), [LM + ":LibriSpeechDataset.__init__"]),
         Case("CMU ARCTIC utterances", listed("cmu"), [CM + ":CmuArcticDataset.available_sentences", CM + ":CmuArcticDataset.sentences"]),
         Case("LibriSpeech utterances", listed("libri"), [LM + ":LibriSpeechDataset.available_sentences"]),
         Case("LibriSpeech utterances of one speaker", listed("libri", "103"), [LM + ":LibriSpeechDataset.available_sentences"]),
         Case("CMU ARCTIC audio files", audio_path("cmu"), [CM + ":CmuArcticDataset.load_audio"]),
         Case("LibriSpeech audio files", audio_path("libri"), [LM + ":LibriSpeechDataset.load_audio"]),
         Case("items of a dataset", item("plain"), FB), Case("items of a dataset with a speaker", item("plain", "me"), FB),
         Case("CMU ARCTIC items", item("cmu"), FB), Case("LibriSpeech items", item("libri"), FB),
         Case("LibriSpeech items of one speaker", item("libri", "103"), FB)]
ID_ = Atom("identifier", WS + '"()', tight=True)
for _n, _t in (("text", Atom("text", "\n\r")), ("empty text", None)):
    for _b, _m, _a in (("( ", ' "', '" )'), ("(", ' "', '")'), ("( ", '   "', '"   )'), ("(\t", '\t"', '"')):
        CASES.append(Case(f"CMU ARCTIC line {_b!r}identifier{_m!r}{_n}{_a!r}", parsed(CM, _b, _m, _a if _t else _m + _a, ID_, _t), [CM + ":_parse_text_line"]))
for _m in (" ", "   ", " \t"):
    CASES.append(Case(f"LibriSpeech line with {_m!r}", parsed(LM, "", _m, "", ID_, Atom("text", "\n\r", tight=True)), [LM + ":_parse_text_line"]))
CASES.append(Case("LibriSpeech line without text", parsed(LM, "", "", "", ID_, None), [LM + ":_parse_text_line"]))
