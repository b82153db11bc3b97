"""C25: archive extraction.  An archive is a sequence of members of arbitrary length, every member of arbitrary kind and
name; where a member lands once the file system's links are followed is an arbitrary function of its name (LANDS).  The
contract of tarfile: extractall(path) writes every (given) member where it lands below path, or applies the given filter."""
import os as _os, posixpath, types
import z3
from dv import core, harness, seq, strs
from dv.core import wrap, Unsupported, I, B
from dv.strs import SStr, S, term
from dv.harness import Case

ID = "C25"
F = "torchrir.datasets._archive:safe_extractall"
TRUSTED = ["tarfile.TarFile.extractall(path) writes member m at the place path/m.name resolves to, and nowhere else (checked as a contract at every call)",
           "pathlib.Path.resolve / os.path.realpath follow every link of the existing part of a path; the archive's own members cannot add links, as archives with links are rejected",
           "os.path.commonpath([a, b]) == a exactly when b is a or below a, for resolved absolute paths"]
ASSUMPTIONS = ["the destination is not the file system's root", "the destination's own directory tree is not changed by others during the extraction"]

ROOT = z3.Const("resolved_dest", S)
LANDS = z3.Function("LANDS", S, S)
TEXT = z3.Function("JOINED_TEXT", S, S, S)
OTHER = z3.Function("RESOLVED_OTHER", S, S)
COMMON = z3.Function("COMMONPATH", S, S, S)
KIND, NAME = z3.Function("MEMBER_KIND", I, I), z3.Function("MEMBER_NAME", I, S)
SEP = z3.StringVal("/")


def inside(r, t):
    return z3.Or(t == r, z3.PrefixOf(z3.Concat(r, SEP), t), z3.And(r == SEP, z3.PrefixOf(SEP, t)))


core.AXIOMS[COMMON.name()] = lambda u: [(u == u.arg(0)) == inside(u.arg(0), u.arg(1)), (u == u.arg(1)) == inside(u.arg(1), u.arg(0))]
core.AXIOMS[KIND.name()] = lambda u: [u >= 0, u <= 6]


class APath:
    """kind: dest (as given), root (resolved), joined (dest or root / name), landed (a joined path, resolved), text"""

    def __init__(self, kind, name=None, base=None):
        self.kind, self.n, self.base = kind, name, base

    def __str__(self):
        return SStr(self.t)
    __fspath__ = as_posix = __str__

    @property
    def t(self):
        return {"dest": lambda: z3.Const("dest_text", S), "root": lambda: ROOT, "joined": lambda: TEXT(self.base.t, self.n),
                "landed": lambda: LANDS(self.n), "other": lambda: OTHER(self.n)}[self.kind]()

    def resolve(self, strict=False):
        if strict:
            raise Unsupported("strict resolution")
        if self.kind in ("root", "landed", "other"):
            return self
        return APath("root") if self.kind == "dest" else APath("landed", self.n)

    def joinpath(self, *a):
        p = self
        for x in a:
            p = p / x
        return p

    def __truediv__(self, o):
        if self.kind not in ("dest", "root") or not isinstance(o, str):
            raise Unsupported("path arithmetic")
        return APath("joined", term(o), self)

    def is_relative_to(self, o, *a):
        if a:
            raise Unsupported("is_relative_to with parts")
        r = topath(o)
        return wrap(inside(r.t, self.t))

    def relative_to(self, o, *a):
        if not bool(self.is_relative_to(o, *a)):
            raise ValueError("not in the subpath")
        return APath("other", self.t)

    @property
    def parents(self):
        return Parents(self)

    @property
    def parent(self):
        return APath("other", z3.Concat(self.t, z3.StringVal("/..")))

    def __eq__(self, o):
        return wrap(self.t == o.t) if isinstance(o, APath) else False

    def __ne__(self, o):
        return wrap(self.t != o.t) if isinstance(o, APath) else True

    def __hash__(self):
        raise Unsupported("hash of a path")

    def mkdir(self, *a, **k):
        if core.ITER:
            raise Unsupported("effects inside a loop")

    def exists(self):
        return wrap(z3.Function("EXISTS", S, B)(self.t))

    @property
    def parts(self):
        raise Unsupported("path parts")

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"Path.{n}")


class Parents:
    def __init__(self, p):
        self.p = p

    def __contains__(self, o):
        r = topath(o)
        return bool(wrap(z3.And(inside(r.t, self.p.t), self.p.t != r.t)))

    def __iter__(self):
        raise Unsupported("iteration over parents")


def topath(x):
    if isinstance(x, APath):
        return x
    if isinstance(x, SStr):
        for k in ("dest", "root"):
            p = APath(k)
            if x.t.eq(p.t):
                return p
        if x.t.num_args() == 2 and x.t.decl().eq(TEXT):
            return APath("joined", x.t.arg(1), topath(SStr(x.t.arg(0))))
        if x.t.num_args() == 1 and x.t.decl().eq(LANDS):
            return APath("landed", x.t.arg(0))
        return APath("other", x.t)
    raise Unsupported(f"path from {type(x).__name__}")


class Member:
    def __init__(self, k):
        self.k = k
        self.name = self.path = SStr(NAME(k))

    def _is(self, *v):
        return wrap(z3.Or(*[KIND(self.k) == x for x in v]))

    def isfile(self): return self._is(0)
    isreg = isfile
    def isdir(self): return self._is(1)
    def issym(self): return self._is(2)
    def islnk(self): return self._is(3)
    def ischr(self): return self._is(4)
    def isblk(self): return self._is(5)
    def isfifo(self): return self._is(6)
    def isdev(self): return self._is(4, 5, 6)

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"TarInfo.{n}")


class Tar(seq.SymIter):
    def __init__(self, n):
        self.n, self.done = n, []
        self.all = seq.SymSeq(n, Member, "members")

    def getmembers(self):
        return seq.SymSeq(self.n, Member, "members")

    def elem(self, k):
        return Member(k)

    def in_range(self, k):
        return z3.And(k >= 0, k < self.n.t)

    def count(self):
        return self.n.t

    def extractall(self, path=".", members=None, *, numeric_owner=False, filter=None):
        if core.ITER:
            raise Unsupported("extraction inside a loop over the members")
        if filter is not None:
            raise Unsupported("extraction filters")
        self.done.append((path, members))

    def extract(self, *a, **k):
        raise Unsupported("extraction of single members")

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"TarFile.{n}")


def _paths(x):
    return seq.as_symseq(x) if not isinstance(x, (list, tuple)) else list(x)


def _commonpath(ps):
    a, b = [str(p) if isinstance(p, APath) else p for p in _paths(ps)]
    return SStr(COMMON(term(a), term(b))) if isinstance(a, SStr) or isinstance(b, SStr) else posixpath.commonpath([a, b])


def _commonprefix(ps):
    a, b = [str(p) if isinstance(p, APath) else p for p in _paths(ps)]
    f = z3.Function("COMMONPREFIX", S, S, S)
    core.AXIOMS[f.name()] = lambda u: [(u == u.arg(0)) == z3.PrefixOf(u.arg(0), u.arg(1))]
    return SStr(f(term(a), term(b)))


ospath = types.ModuleType("os.path")
ospath.sep = "/"
ospath.commonpath, ospath.commonprefix = _commonpath, _commonprefix
ospath.realpath = lambda p, strict=False: topath(p).resolve(strict).__str__()
ospath.join = lambda a, *b: topath(a).joinpath(*b).__str__()
ospath.abspath = ospath.normpath = lambda p: SStr(z3.Function("NORMALISED", S, S)(term(p if not isinstance(p, APath) else str(p))))
ospath.isabs = lambda p: wrap(z3.PrefixOf(SEP, term(p)))
ospath.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n) if n.startswith("__") else Unsupported(f"os.path.{n}"))
osmod = types.ModuleType("os")
osmod.path, osmod.sep, osmod.fspath = ospath, "/", lambda p: p.__fspath__() if hasattr(p, "__fspath__") else p
osmod.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n) if n.startswith("__") else Unsupported(f"os.{n}"))
harness.SHIMS.update({"os": osmod, "os.path": ospath})


def bad(k):
    return z3.Or(KIND(k) == 2, KIND(k) == 3, z3.Not(inside(ROOT, LANDS(NAME(k)))))


def extract_case(P):
    f = P.fn(F)
    n = P.int("members", 0)
    tar = Tar(n)
    P.assume(ROOT != SEP)
    st, y = P.call(f, tar, APath("dest"))
    k = core.fresh("k")
    if st == "raise":
        P.check("a rejection is a ValueError", isinstance(y, ValueError), repr(y)[:200])
        P.check("a rejected archive is not extracted at all", not tar.done, repr(tar.done))
        # some member is a link, a device, or lands outside
        P.impossible("only archives with a bad member are rejected", foralls=[(1, lambda q: z3.Implies(z3.And(q >= 0, q < n.t), z3.And(KIND(q) < 2, z3.Not(bad(q)))), [(NAME.name(), [0]), (KIND.name(), [0])])],
                     cands=names(P))
        return
    P.check("an accepted archive is extracted once, whole", len(tar.done) == 1 and (tar.done[0][1] is None or isinstance(tar.done[0][1], (Tar, seq.SymSeq))), repr(tar.done))
    for path, members in tar.done:
        p = topath(path)
        P.check("it is extracted into the destination", p.kind in ("dest", "root"), p.kind)
        if members is not None:
            ms = members if isinstance(members, Tar) else seq.as_symseq(members)
            P.prove("every member is extracted", ms.count() == n.t)
            with P.given(k >= 0, k < n.t) as live:
                if live:
                    m = ms.elem(k)
                    P.prove("every member is extracted, in its place", m.k == k)
    with P.given(k >= 0, k < n.t) as live:
        if live:
            P.prove("no extracted member is a symbolic or hard link", z3.And(KIND(k) != 2, KIND(k) != 3), cands=[(k,)])
            P.prove("every extracted member lands inside the destination", inside(ROOT, LANDS(NAME(k))), cands=[(k,)])


def names(P):
    out = {}
    for h in P.ctx.hyps:
        for nme, t in core.free_consts(h).items():
            if t.sort() == I:
                out[nme] = t
    return [(t,) for t in out.values()]


CASES = [Case("any archive", extract_case, [F])]
