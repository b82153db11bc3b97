"""C26: downloads.  The network and the file system are external: a response is any sequence of reads that may stop early
or fail at any point, and opening, writing, closing and renaming files may fail as well.  The loops over chunks and over
attempts are verified for any number of iterations by the inductive rule of dv.ghost (the invariants relate the program's
counters to the bytes received, the bytes on disk and the attempts made)."""
import http.client as _http, logging as _logging, pathlib as _pathlib, posixpath, tarfile as _tarfile, types, zlib as _zlib
import z3
from dv import core, harness, ghost, seq
from dv.core import wrap, lift, fresh, Unsupported, I, B
from dv.ghost import Fault
from dv.harness import Case

ID = "C26"
MODS = ("torchrir.datasets.cmu_arctic", "torchrir.datasets.librispeech")
TRUSTED = ["urllib.request.urlopen / http.client.HTTPResponse: read(n) returns at most n bytes, the next ones of the body, and b'' only at the end or when the connection was cut; length is the announced number of bytes still to come (None when not announced)",
           "file system: rename is atomic; removing an existing file succeeds; data is on disk once the file was closed without error",
           "tarfile.open and safe_extractall (contract C25) raise or extract the whole archive"]
ASSUMPTIONS = ["a response without announced length is complete when it ends without error", "retries is not negative", "no other process works in the same directory"]
_logging.disable(_logging.CRITICAL)
W = None           # the current world


class FOS(Fault, OSError): pass
class FHTTP(Fault, _http.HTTPException): pass
class FStop(Fault, KeyboardInterrupt): pass
class FRead(Fault, _tarfile.ReadError): pass
class FEOF(Fault, EOFError): pass
class FZlib(Fault, _zlib.error): pass
class FUnsafe(Fault, ValueError): pass


T, F_ = z3.BoolVal(True), z3.BoolVal(False)


class World:
    """ghost state: att (responses so far), decl/recv/eof of the latest response, last (latest error), and per file
    ex(ists), src (response), len, ok (holds the first len bytes of it), open, done (complete, of an earlier response), orig (untouched)"""

    def __init__(self, P):
        global W
        W = self
        self.P, self.log = P, []
        self.G = P.ctx.ghost = ghost.Ghost(att=z3.IntVal(0), decl=z3.IntVal(-1), recv=z3.IntVal(0), eof=T, last=z3.IntVal(-1))
        self.files = {}

    @property
    def s(self):
        return self.G.s

    def file(self, p):
        if p + "#ex" not in self.s:
            n = p.replace("/", "_")
            self.s.update({p + "#ex": fresh("ex" + n, B), p + "#src": z3.IntVal(0), p + "#len": fresh("len" + n), p + "#ok": F_, p + "#open": F_, p + "#done": F_, p + "#orig": T})
        return p

    def get(self, p, k):
        return self.s[self.file(p) + "#" + k]

    def put(self, p, **k):
        self.file(p)
        for n, v in k.items():
            self.s[p + "#" + n] = v
        if "orig" not in k:
            self.s[p + "#orig"] = F_

    def paths(self):
        return [k[:-3] for k in self.s if k.endswith("#ex")]

    def response_complete(self):
        s = self.s
        return z3.If(s["decl"] < 0, s["eof"], s["recv"] == s["decl"])

    def complete(self, p):
        g = lambda k: self.get(p, k)
        return z3.And(g("ex"), g("ok"), z3.Not(g("open")), z3.If(z3.Or(g("src") == self.s["att"], g("len") == 0), z3.And(g("len") == self.s["recv"], self.response_complete()), g("done")))

    def acceptable(self, p):
        return z3.Or(z3.Not(self.get(p, "ex")), self.complete(p), self.get(p, "orig"))

    def new_response(self):
        for p in self.paths():
            self.put(p, done=self.complete(p), orig=self.get(p, "orig"))
        s = self.s
        s["att"] = s["att"] + 1
        s["decl"], s["recv"], s["eof"] = fresh("declared"), z3.IntVal(0), F_
        core.ctx().assume(s["decl"] >= -1)

    def fault(self, where, kinds=(FOS, FHTTP, FStop)):
        c = core.ctx()
        if not c.decide(None, "error in " + where):
            return
        ks = list(kinds)
        while len(ks) > 1 and not c.decide(None, "kind of error"):
            ks.pop(0)
        t = fresh("error")
        c.assume(t >= 0)
        self.s["last"] = t
        raise ks[0](t)


class SBytes:
    """body bytes [off, off+n) of response src"""
    __dv_tensor__ = False

    def __init__(self, src, off, n):
        self.src, self.off, self.n = src, off, n

    def __dv_state__(self):
        return [("src", self.src), ("off", self.off), ("end", self.off + self.n), ("empty", self.n == 0)]

    def __dv_rebuild__(self, cs):
        core.ctx().assume(z3.And(cs[2] >= cs[1], cs[3] == (cs[2] == cs[1])))
        return SBytes(cs[0], cs[1], cs[2] - cs[1])

    def __dv_len__(self):
        return wrap(self.n)

    def __bool__(self):
        return core.ctx().branch(self.n != 0)

    def __eq__(self, o):
        if isinstance(o, bytes):
            if o:
                raise Unsupported("comparison with particular bytes")
            return wrap(self.n == 0)
        raise Unsupported("comparison of chunks")

    def __ne__(self, o):
        return not bool(self == o)
    __hash__ = None

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"bytes.{n}")


class Headers:
    def __init__(self, r):
        self.r = r

    def get(self, n, d=None):
        if n.lower() != "content-length":
            raise Unsupported(f"header {n}")
        v = self.r.declared()
        return d if v is None else v
    getheader = get

    def __getitem__(self, n):
        return self.get(n)

    def __contains__(self, n):
        return self.get(n) is not None

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"headers.{n}")


class Response:
    def __init__(self, W):
        self.W, self.id = W, W.s["att"]
        self.status = self.code = 200
        self.headers = Headers(self)

    def now(self):
        if not self.W.s["att"].eq(self.id):
            raise Unsupported("use of an earlier response")
        return self.W.s

    def declared(self):
        s = self.now()
        return None if core.ctx().branch(s["decl"] < 0) else wrap(s["decl"])

    @property
    def length(self):
        s = self.now()
        return None if core.ctx().branch(s["decl"] < 0) else wrap(s["decl"] - s["recv"])

    def getheader(self, n, d=None):
        return self.headers.get(n, d)

    def info(self):
        return self.headers

    def getcode(self):
        return 200

    def read(self, amt=None):
        s, c = self.now(), core.ctx()
        self.W.fault("read")
        n = fresh("read")
        whole = amt is None or (isinstance(amt, int) and amt < 0)
        c.assume(z3.And(n >= 0, z3.Implies(s["eof"], n == 0), z3.Implies(s["decl"] >= 0, s["recv"] + n <= s["decl"])))
        if whole:
            if core.ctx().branch(z3.And(s["decl"] >= 0, s["recv"] + n != s["decl"])):
                raise _http.IncompleteRead(b"")
            eof = T
        else:
            a = lift(amt)
            c.assume(n <= z3.If(a >= 0, a, z3.IntVal(0)))
            eof = z3.Or(s["eof"], z3.And(n == 0, a > 0))
        off = s["recv"]
        s["recv"], s["eof"] = off + n, eof
        return SBytes(self.id, off, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __iter__(self):
        raise Unsupported("iteration over the lines of a response")

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"HTTPResponse.{n}")


class Handle:
    def __init__(self, W, p):
        self.W, self.p, self.closed = W, p, False

    def write(self, b):
        W, p = self.W, self.p
        if not isinstance(b, SBytes):
            raise Unsupported("written data")
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        try:
            W.fault("write", (FOS, FStop))
        except Fault:
            W.put(p, ok=F_)
            raise
        ln, src = W.get(p, "len"), W.get(p, "src")
        ok = z3.And(W.get(p, "ok"), z3.Or(b.n == 0, z3.If(ln == 0, b.off == 0, z3.And(src == b.src, b.off == ln))))
        W.put(p, ok=ok, src=z3.If(z3.And(ln == 0, b.n > 0), b.src, src) if not src.eq(b.src) else src, len=ln + b.n)
        return wrap(b.n)

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.W.put(self.p, open=F_)
        try:
            self.W.fault("close", (FOS, FStop))
        except Fault:
            self.W.put(self.p, ok=F_)
            raise

    def flush(self):
        pass

    def fileno(self):
        return 3

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"file.{n}")


class Stat:
    def __init__(self, n):
        self.st_size = n

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"stat.{n}")


class FPath:
    def __init__(self, *a):
        self.p = posixpath.join(*[str(x) for x in a]) if a else "."

    def _n(self, p):
        return FPath(str(p))

    @property
    def q(self):
        return _pathlib.PurePosixPath(self.p)
    name, suffix, stem, suffixes, parts = (property(lambda s, n=n: getattr(s.q, n)) for n in ("name", "suffix", "stem", "suffixes", "parts"))
    parent = property(lambda s: s._n(s.q.parent))

    def with_suffix(self, x): return self._n(self.q.with_suffix(x))
    def with_name(self, x): return self._n(self.q.with_name(x))
    def with_stem(self, x): return self._n(self.q.with_stem(x))
    def __truediv__(self, o): return self._n(self.q / str(o))
    def joinpath(self, *a): return self._n(self.q.joinpath(*[str(x) for x in a]))
    def __str__(self): return self.p
    __fspath__ = __str__
    def __repr__(self): return f"FPath({self.p})"
    def __eq__(self, o): return isinstance(o, FPath) and o.q == self.q
    def __hash__(self): return hash(self.q)
    def expanduser(self): return self
    def resolve(self, *a): return self
    absolute = resolve

    def exists(self):
        return bool(wrap(W.get(self.p, "ex")))
    is_file = is_dir = exists

    def unlink(self, missing_ok=False):
        if not self.exists():
            if missing_ok:
                return
            raise FileNotFoundError(self.p)
        W.log.append(("unlink", self.p))
        W.put(self.p, ex=F_)

    def replace(self, target):
        t = str(target)
        if not self.exists():
            raise FileNotFoundError(self.p)
        W.fault("rename", (FOS, FStop))
        W.put(t, **{k: W.get(self.p, k) for k in ("ex", "src", "len", "ok", "open", "done")})
        W.put(self.p, ex=F_)
        return FPath(t)
    rename = replace

    def stat(self):
        if not self.exists():
            raise FileNotFoundError(self.p)
        return Stat(wrap(W.get(self.p, "len")))

    def touch(self, *a, **k):
        self.open("ab").close()

    def write_bytes(self, b):
        with self.open("wb") as f:
            return f.write(b)

    def mkdir(self, *a, **k):
        W.log.append(("mkdir", self.p))

    def open(self, mode="r", *a, **k):
        m = mode.replace("b", "")
        if m not in ("w", "a", "x"):
            raise Unsupported(f"open({mode!r})")
        W.fault("open", (FOS, FStop))
        ex = self.exists()
        if m == "x" and ex:
            raise FileExistsError(self.p)
        if m != "a" or not ex:
            W.put(self.p, ex=T, src=z3.IntVal(-2), len=z3.IntVal(0), ok=T, open=T, done=F_)
        else:
            W.put(self.p, open=T)
        return Handle(W, self.p)

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"Path.{n}")


def refuse(name):
    def f(n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"{name}.{n}")
    return f


def module(name, **k):
    m = types.ModuleType(name)
    for a, b in k.items():
        setattr(m, a, b)
    m.__getattr__ = refuse(name)
    return m


class Request:
    def __init__(self, url, *a, **k):
        self.full_url = url


def urlopen(url, *a, **k):
    u = url.full_url if isinstance(url, Request) else url
    W.P.check("the requested URL is fetched", u is W.url or u == W.url, repr(u))
    W.new_response()
    W.fault("urlopen")
    return Response(W)


def copyfileobj(src, dst, length=0):
    """reads and writes any number of chunks"""
    if not isinstance(src, Response) or not isinstance(dst, Handle):
        raise Unsupported("copyfileobj")
    s, c = src.now(), core.ctx()
    n = fresh("copied")
    c.assume(z3.And(n >= 0, z3.Implies(s["eof"], n == 0), z3.Implies(s["decl"] >= 0, s["recv"] + n <= s["decl"])))
    b = SBytes(src.id, s["recv"], n)
    s["recv"] = s["recv"] + n
    W.fault("read")
    s["eof"] = T
    dst.write(b)


def openfile(p, mode="r", *a, **k):
    return FPath(str(p)).open(mode)


req = module("urllib.request", urlopen=urlopen, Request=Request)
err = module("urllib.error", URLError=type("URLError", (OSError,), {}), HTTPError=type("HTTPError", (OSError,), {}), ContentTooShortError=type("ContentTooShortError", (OSError,), {}))
osm = module("os", replace=lambda a, b: FPath(str(a)).replace(b), rename=lambda a, b: FPath(str(a)).replace(b), remove=lambda a: FPath(str(a)).unlink(), unlink=lambda a: FPath(str(a)).unlink(), fsync=lambda fd: None,
             fspath=str, sep="/", PathLike=FPath, makedirs=lambda *a, **k: None,
             path=module("os.path", exists=lambda p: FPath(str(p)).exists(), isfile=lambda p: FPath(str(p)).exists(), isdir=lambda p: FPath(str(p)).exists(), join=lambda *a: str(FPath(*a)), getsize=lambda p: FPath(str(p)).stat().st_size,
                         basename=posixpath.basename, dirname=posixpath.dirname, splitext=posixpath.splitext))
harness.SHIMS.update({"urllib": module("urllib", request=req, error=err), "urllib.request": req, "urllib.error": err, "os": osm, "os.path": osm.path,
                      "pathlib": module("pathlib", Path=FPath, PurePath=FPath, PosixPath=FPath, PurePosixPath=_pathlib.PurePosixPath),
                      "shutil": module("shutil", copyfileobj=copyfileobj, move=lambda a, b: FPath(str(a)).replace(b), rmtree=lambda p, *a, **k: W.log.append(("rmtree", str(p)))),
                      "time": module("time", sleep=lambda s: None)})


def stream_case(mod):
    def run(P):
        w = World(P)
        f = P.fn(mod + ":_stream_download")
        dest = FPath("/base/archive.tar.gz")
        w.url = "http://host/archive.tar.gz"
        w.file(dest.p)
        st, y = P.call(f, w.url, dest)
        if st == "ok":
            P.prove("a download that returns made exactly one request", w.s["att"] == 1)
            P.prove("a download that returns leaves the complete file at its destination", w.complete(dest.p))
            P.prove("it is the file of this response", z3.And(z3.Or(w.get(dest.p, "src") == w.s["att"], w.get(dest.p, "len") == 0), z3.Not(w.get(dest.p, "orig"))))
            return
        P.prove("a failed attempt leaves no partial file at the destination", w.acceptable(dest.p))
        P.prove("a failed attempt made at most one request", w.s["att"] <= 1)
        if not isinstance(y, Fault):
            P.check("an incomplete response is an ordinary error", isinstance(y, Exception), repr(y))
            P.prove("an error without a fault means the response is incomplete", z3.And(w.s["att"] == 1, z3.Not(w.response_complete())))
        else:
            P.prove("the error of the failed operation is raised", y.t == w.s["last"])
    return run


def retry_case(mod):
    def run(P):
        w = World(P)
        m = P.mod(mod)
        f = P.fn(mod + ":_download")
        dest = FPath("/base/archive.tar.gz")
        w.url = "http://host/archive.tar.gz"
        w.file(dest.p)

        def stream(real):
            def g(url, dst, *a, **k):
                P.check("every attempt downloads the requested file to the destination", url == w.url and dst == dest and not a and not k, repr((url, dst, a, k)))
                w.new_response()
                s, c = w.s, core.ctx()
                if c.decide(None, "the attempt succeeds"):
                    s["recv"], s["eof"], s["decl"] = fresh("body"), T, z3.IntVal(-1)
                    w.put(dest.p, ex=T, src=s["att"], len=s["recv"], ok=T, open=F_, done=F_)
                    return None
                if c.decide(None, "old file removed"):
                    w.put(dest.p, ex=F_)
                w.fault_now()
            return g

        def fault_now():
            c = core.ctx()
            kind = FOS if c.decide(None, "OSError") else FHTTP if c.decide(None, "other error") else FStop
            t = fresh("error")
            c.assume(t >= 0)
            w.s["last"] = t
            raise kind(t)
        w.fault_now = fault_now
        if not P.stub("_stream_download", stream):
            raise Unsupported("no _stream_download to be used by its contract")
        n = P.int("retries", 0)
        st, y = P.call(f, w.url, dest, retries=n) if P.ctx.decide(None, "keyword") else P.call(f, w.url, dest, n)
        if st == "ok":
            P.prove("a download that returns leaves the complete file at its destination", z3.And(w.complete(dest.p), w.s["att"] >= 1))
            P.prove("attempts are bounded", w.s["att"] <= n.t + 1)
            return
        P.prove("a failed download leaves no partial file at the destination", w.acceptable(dest.p))
        if not isinstance(y, Fault):
            return P.fail("only the errors of the attempts are raised", repr(y))
        P.prove("the last error is raised", y.t == w.s["last"])
        if isinstance(y, FStop):
            P.prove("attempts are bounded", w.s["att"] <= n.t + 1)
        else:
            P.prove("exactly the configured number of attempts was made", w.s["att"] == n.t + 1)
    return run


BROKEN = {MODS[0]: (FRead, FEOF, FOS), MODS[1]: (FRead, FEOF, FOS, FZlib)}
WHAT = {MODS[0]: ("CmuArcticDataset", dict(speaker="bdl"), "/root/ARCTIC", "/root/ARCTIC/cmu_us_bdl_arctic.tar.bz2", "/root/ARCTIC/cmu_us_bdl_arctic", "cmu_us_bdl_arctic.tar.bz2", ("r:bz2", "r", "r:*")),
        MODS[1]: ("LibriSpeechDataset", dict(subset="dev-clean"), "/root", "/root/dev-clean.tar.gz", "/root/LibriSpeech/dev-clean", "dev-clean.tar.gz", ("r:gz", "r", "r:*"))}


def loader_case(mod, download):
    cls, kw, base, archive, folder, name, modes = WHAT[mod]

    def run(P):
        w = World(P)
        P.ctx.ghost = None
        m = P.mod(mod)
        P.check("the address the data set is published at", m.BASE_URL.startswith("http"), repr(m.BASE_URL))
        url = m.BASE_URL + "/" + name
        w.url = url
        A, D = w.get(archive, "ex"), w.get(folder, "ex")

        def dl(real):
            def g(u, dest, *a, **k):
                w.log.append(("download", u, str(dest)))
                if P.ctx.decide(None, "the download succeeds"):
                    w.put(str(dest), ex=T, done=T, ok=T, open=F_, src=z3.IntVal(-9))
                    return
                w.put(str(dest), ex=F_)
                raise FOS(fresh("error")) if P.ctx.decide(None, "OSError") else FHTTP(fresh("error"))
            return g
        if not P.stub("_download", dl):
            raise Unsupported("no _download to be used by its contract")

        class Tar:
            def __init__(self, p):
                self.p, self.closed = p, False

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.closed = True
                return False

            def close(self):
                self.closed = True

            def __getattr__(self, n):
                raise AttributeError(n) if n.startswith("__") else Unsupported(f"TarFile.{n}")

        def pick(kinds):
            ks = list(kinds)
            while len(ks) > 1 and not P.ctx.decide(None, "kind of error"):
                ks.pop(0)
            e = ks[0](fresh("error"))
            w.log.append(("failed", e))
            return e

        def topen(name=None, mode="r", *a, **k):
            if a or k:
                raise Unsupported("tarfile.open arguments")
            w.log.append(("tar", str(name), mode))
            if not FPath(str(name)).exists():
                e = FileNotFoundError(str(name))
                w.log.append(("failed", e))
                raise e
            if P.ctx.decide(None, "the archive cannot be read"):
                raise pick(BROKEN[mod])
            return Tar(str(name))

        def extract(real):
            def g(tar, dest):
                w.log.append(("extract", tar.p, str(dest)))
                P.check("the archive is open", not tar.closed)
                if P.ctx.decide(None, "extraction fails"):
                    if P.ctx.decide(None, "some files were extracted"):
                        w.put(folder, ex=T)
                    raise pick(BROKEN[mod] + (FUnsafe,))
                w.put(folder, ex=T)
            return g
        tf = module("tarfile", open=topen, ReadError=_tarfile.ReadError, TarError=_tarfile.TarError, CompressionError=_tarfile.CompressionError, TarFile=_tarfile.TarFile)
        if "tarfile" in m.__dict__:
            m.__dict__["tarfile"] = tf
        if not P.stub("safe_extractall", extract):
            raise Unsupported("no safe_extractall to be used by its contract")
        st, y = P.call(getattr(m, cls), FPath("/root"), **kw, **({} if download is None else {"download": download}))
        log = w.log
        dls = [e for e in log if e[0] == "download"]
        P.check("only the data set's own archive is downloaded, to its own place", all(e[1:] == (url, archive) for e in dls), repr(dls))
        if not download:
            P.check("nothing is fetched, extracted or changed unless downloading was requested", not [e for e in log if e[0] != "failed"], repr(log))
            if st == "ok":
                P.prove("the data exists", D)
            else:
                P.check("missing data is reported", isinstance(y, FileNotFoundError), repr(y))
                P.prove("only missing data is reported", z3.Not(D))
            return
        tars, exts = [e for e in log if e[0] == "tar"], [e for e in log if e[0] == "extract"]
        P.check("the archive is opened in its own format and unpacked by the checking extractor into the base directory", all(e[1] == archive and e[2] in modes for e in tars) and all(e[1:] == (archive, base) for e in exts), repr(tars + exts))
        fails = [e[1] for e in log if e[0] == "failed"]
        seqn = [e[0] for e in log if e[0] != "mkdir"]
        broken = [isinstance(e, BROKEN[mod] + (FileNotFoundError,)) for e in fails]
        first = "download" in seqn and ("tar" not in seqn or seqn.index("download") < seqn.index("tar"))
        again = len(dls) - first
        P.prove("an existing archive is not downloaded, a missing one is", A == z3.BoolVal(not first))
        P.check("a broken archive is downloaded again at most once", again <= 1 and len(dls) <= 2, repr(log))
        if st == "raise" and first and not tars:
            P.check("the error of a failed download is raised", isinstance(y, (FOS, FHTTP)) and not fails, repr(log))
            return
        P.prove("an existing extracted directory is not extracted again, a missing one is", D == z3.BoolVal(not tars))
        if not tars:
            return P.check("nothing to be done: no error", st == "ok" and not again, repr(y))
        P.check("it is unpacked again only after a failure", len(tars) == 1 + again or st == "raise" and len(tars) == again, repr(log))
        if not fails:
            return P.check("a good archive is not downloaded again", again == 0 and st == "ok" and len(exts) == 1, repr(log))
        P.check("a broken archive is downloaded again, an unsafe one is not", again == (1 if broken[0] else 0), repr(log))
        if again and len(tars) == 2:
            i = [j for j, n in enumerate(seqn) if n == "failed"][0]
            P.check("first the broken archive goes, then the new one comes, then it is unpacked", [n for n in seqn[i + 1:] if n != "failed"][:3] in (["unlink", "download", "tar"], ["download", "tar", "extract"], ["download", "tar"]), repr(seqn))
        if st == "ok":
            P.check("success means the last extraction succeeded", log[-1][0] == "extract" and len(exts) >= 1, repr(log))
        else:
            P.check("the last error is raised", isinstance(y, Fault) and (y is fails[-1] or y is not fails[-1] and log[-1][0] == "download") or isinstance(y, FileNotFoundError), repr((y, log)))
    return run


CASES = [Case(f"one attempt ({m.rpartition('.')[2]})", stream_case(m), [m + ":_stream_download"], max_paths=600) for m in MODS] + \
        [Case(f"any number of attempts ({m.rpartition('.')[2]})", retry_case(m), [m + ":_download"]) for m in MODS] + \
        [Case(f"loader of {m.rpartition('.')[2]}, download={d}", loader_case(m, d), [f"{m}:{WHAT[m][0]}.__init__", f"{m}:{WHAT[m][0]}._download_and_extract"], max_paths=600) for m in MODS for d in (None, False, True)]
