"""C26 runtime contracts: downloads from a scripted server on the loopback interface (short bodies, resets, error codes,
unannounced lengths, failing reads, writes and renames), alone and through both loaders with broken archives."""
import contextlib, http.client, importlib, io, logging, os, pathlib, resource, shutil, socket, struct, tarfile, threading, urllib.error

logging.disable(logging.CRITICAL)
os.environ["no_proxy"] = "*"


class Server:
    """serves one behaviour per request from self.script: ("ok"|"nolen"|"short"|"reset"|"close"|code, body, cut)"""

    def __init__(self):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.script, self.seen = [], []
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            c, _ = self.s.accept()
            try:
                self.one(c)
            except OSError:
                pass
            finally:
                c.close()

    def one(self, c):
        req = b""
        while b"\r\n\r\n" not in req:
            x = c.recv(4096)
            if not x:
                return
            req += x
        self.seen.append(req.split()[1].decode())
        kind, body, cut = self.script[len(self.seen) - 1] if len(self.seen) <= len(self.script) else (599, b"", 0)
        if kind == "close":
            return
        if isinstance(kind, int):
            c.sendall(f"HTTP/1.1 {kind} no\r\nContent-Length: 5\r\nConnection: close\r\n\r\nsorry".encode())
            return
        head = "HTTP/1.1 200 OK\r\nConnection: close\r\n" + ("" if kind == "nolen" else f"Content-Length: {len(body)}\r\n") + "\r\n"
        c.sendall(head.encode())
        c.sendall(body if kind in ("ok", "nolen") else body[:cut])
        if kind == "reset":
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))


@contextlib.contextmanager
def read_error(after, exc):
    """reading from a response fails after a number of calls"""
    n = [after]
    real = {k: getattr(http.client.HTTPResponse, k) for k in ("read", "readinto", "read1")}

    def wrap(k):
        def f(self, *a, **kw):
            if n[0] == 0:
                n[0] = -1
                raise exc
            n[0] -= 1
            return real[k](self, *a, **kw)
        return f
    for k in real:
        setattr(http.client.HTTPResponse, k, wrap(k))
    try:
        yield
    finally:
        for k, f in real.items():
            setattr(http.client.HTTPResponse, k, f)


@contextlib.contextmanager
def rename_error(exc):
    """the first rename fails"""
    n = [1]
    real = {k: getattr(os, k) for k in ("replace", "rename")}

    def wrap(k):
        def f(*a, **kw):
            if n[0]:
                n[0] = 0
                raise exc
            return real[k](*a, **kw)
        return f
    for k in real:
        setattr(os, k, wrap(k))
    try:
        yield
    finally:
        for k, f in real.items():
            setattr(os, k, f)


@contextlib.contextmanager
def full_disk(limit):
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def body_of(rt, n):
    return rt.np.integers(0, 256, n, dtype="uint8").tobytes()


def archive(fmt, files, links=()):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:" + fmt) as t:
        for n, data in files.items():
            i = tarfile.TarInfo(n)
            i.size = len(data)
            t.addfile(i, io.BytesIO(data))
        for n, to in links:
            i = tarfile.TarInfo(n)
            i.type, i.linkname = tarfile.SYMTYPE, to
            t.addfile(i)
    return b.getvalue()


LOADERS = {"torchrir.datasets.cmu_arctic": ("CmuArcticDataset", dict(speaker="bdl"), "ARCTIC", "cmu_us_bdl_arctic.tar.bz2", "ARCTIC/cmu_us_bdl_arctic", "bz2", "cmu_us_bdl_arctic/"),
           "torchrir.datasets.librispeech": ("LibriSpeechDataset", dict(subset="dev-clean"), ".", "dev-clean.tar.gz", "LibriSpeech/dev-clean", "gz", "LibriSpeech/dev-clean/")}


def tree(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), top) + "/"] = None
        for n in fs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, top)] = open(p, "rb").read()
    return out


def run(rt):
    srv = Server()
    top = pathlib.Path(rt.tmpdir())
    MB = 1 << 20
    for i in rt.rounds(60, 900, .45):
        name = rt.rng.choice(list(LOADERS))
        f = rt.get(name + ":_download")
        if f is None:
            break
        d = top / "a"
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        dest = d / "x.tar.gz"
        retries = rt.rng.choice([0, 1, 1, 2, 3])
        size = rt.rng.choice([0, 1, 100, 70000, MB - 1, MB, MB + 1, 2 * MB, 2 * MB + 17, rt.rng.randint(2, 3 * MB)])
        script, kinds = [], []
        for a in range(retries + 2):
            body = body_of(rt, size)
            k = rt.rng.choice(["ok", "nolen", "short", "short", "reset", "close", 404, 500 + a, "read", "rename", "disk", "stop"])
            if size == 0 and k in ("short", "reset", "disk"):
                k = "close"
            cut = rt.rng.choice([0, size - 1, size // 2, min(size - 1, MB), max(0, min(size - 1, 2 * MB))]) if size else 0
            kinds.append(k)
            script.append(("ok" if k in ("read", "rename", "disk", "stop") else k, body, cut))
        special = next((k for k in kinds[:retries + 1] if k in ("ok", "nolen", "read", "rename", "disk", "stop")), None)
        stop = kinds.index(special) if special else None
        part = rt.rng.choice([None, b"", b"stale" * 5, body_of(rt, 1000)])
        old = rt.rng.choice([None, None, b"old archive"])
        if part is not None:
            for n in ("x.tar.gz.part", "x.tar.part", "x.part", "x.tar.gz.tmp"):
                (d / n).write_bytes(part)
        if old is not None:
            dest.write_bytes(old)
        srv.script, srv.seen = script, []
        rt.inputs(function=name, retries=retries, size=size, attempts=kinds[:retries + 1], cuts=[s[2] for s in script][:retries + 1], stale=part is not None, existing=old is not None)
        rt.count()
        cm = contextlib.nullcontext()
        faulty = special in ("read", "rename", "disk", "stop") and (special != "disk" or size > 64)
        if faulty:
            # the special failure happens at the first attempt; later ones follow the script
            script[0] = ("ok", script[0][1], 0)
            kinds[0] = special
            after = rt.rng.choice([0, 1, 2])
            if special in ("read", "stop"):
                after = min(after, size // MB)
            exc = KeyboardInterrupt() if special == "stop" else rt.rng.choice([OSError("read failed"), http.client.IncompleteRead(b""), TimeoutError("slow"), ValueError("bad chunk")])
            cm = {"read": lambda: read_error(after, exc), "stop": lambda: read_error(after, exc), "rename": lambda: rename_error(OSError("no rename")), "disk": lambda: full_disk(rt.rng.choice([size // 2, size - 1]))}[special]()
        err = None
        with cm:
            try:
                f(f"http://127.0.0.1:{srv.port}/x.tar.gz", dest, retries=retries)
            except BaseException as e:
                err = e
        if isinstance(err, TypeError):
            break               # another signature
        seen = len(srv.seen)
        now = dest.read_bytes() if dest.exists() else None
        bodies = [s[1] for s in script[:seen]]
        fine = [j for j, s in enumerate(script[:retries + 1]) if s[0] in ("ok", "nolen") and not (faulty and (special == "disk" or j == 0))]
        rt.require(seen <= retries + 1, "at most the configured number of attempts", seen, retries + 1, key="count")
        if special == "stop" and faulty:
            rt.require(isinstance(err, KeyboardInterrupt), "an interrupt ends the download", repr(err), "KeyboardInterrupt", key="stop")
            rt.require(now is None or now == old, "an interrupted download leaves no partial file", now and len(now), None, key="partial")
            continue
        if fine:
            rt.require(err is None, "an attempt after a failure may succeed", repr(err)[:200], "returns", key="success")
            rt.require(seen == fine[0] + 1, "no further request after a success", seen, fine[0] + 1, key="count")
            rt.require(now == script[fine[0]][1], "a download that returns leaves the complete file", now is not None and len(now), size, key="complete")
        else:
            rt.require(isinstance(err, Exception), "a failed download raises", repr(err), "an error", key="raise")
            rt.require(seen == retries + 1, "exactly the configured number of attempts", seen, retries + 1, key="count")
            rt.require(now is None or now == old, "a failed download leaves no partial file at the destination", now and len(now), None, key="partial")
            last = kinds[retries]
            if isinstance(last, int) and not (faulty and retries == 0):
                rt.require(getattr(err, "code", None) == last, "the last error is raised", repr(err), last, key="last")

    for i in range(12):
        name = list(LOADERS)[i % 2]
        f = rt.get(name + ":_stream_download")
        if f is None:
            break
        d = top / "c"
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        dest = d / "x.tar.gz"
        size = rt.rng.randint(2, 3 * MB)
        body = body_of(rt, size)
        kind = ["short", "reset", "ok"][i // 2 % 3]
        srv.script, srv.seen = [(kind, body, rt.rng.randint(0, size - 1))], []
        rt.inputs(function=name + ":_stream_download", kind=kind, size=size)
        rt.count()
        err = None
        try:
            f(f"http://127.0.0.1:{srv.port}/x.tar.gz", dest)
        except TypeError:
            break
        except Exception as e:
            err = e
        now = dest.read_bytes() if dest.exists() else None
        rt.require((err is None) == (kind == "ok") and now == (body if kind == "ok" else None), "an attempt leaves the complete file or nothing", (repr(err), now and len(now)), (kind, size), key="attempt")

    for i in rt.rounds(70, 900, .5):
        name = rt.rng.choice(list(LOADERS))
        cls, kw, base, arch, folder, fmt, prefix = LOADERS[name]
        mod = importlib.import_module(name)
        ctor = rt.get(f"{name}:{cls}", True)
        if not hasattr(mod, "BASE_URL"):
            break
        root = top / "b"
        shutil.rmtree(root, ignore_errors=True)
        (root / base).mkdir(parents=True)
        inner = {prefix + "etc/x.txt": body_of(rt, rt.rng.randint(0, 500)), prefix + "wav/y.wav": body_of(rt, rt.rng.randint(1000, 40000))}
        good = archive(fmt, inner)
        unsafe = archive(fmt, {**inner, "../../evil": b"x"}) if rt.rng.random() < .5 else archive(fmt, inner, [(prefix + "l", "/etc")])
        broken = {"garbage": body_of(rt, 3000), "empty": b"", "html": b"<html>moved</html>" * 40, "truncated": good[:len(good) // 2]}

        def make():
            k = rt.rng.choice(["good", "good", "unsafe", "truncated", "garbage", "empty", "html"])
            return k, {"good": good, "unsafe": unsafe, **broken}[k]
        have = make() if rt.rng.random() < .6 else None
        if have:
            (root / base / arch).write_bytes(have[1])
        extracted = rt.rng.random() < .35
        if extracted:
            (root / folder).mkdir(parents=True)
            (root / folder / "mine").write_bytes(b"precious")
        served = [make() for _ in range(4)]
        net = rt.rng.choice(["fine", "fine", "fine", "one failure", "down"])
        script = [("ok", b, 0) for _, b in served]
        if net == "one failure":
            script = [rt.rng.choice([(503, b"", 0), ("short", good, len(good) // 3), ("close", b"", 0)])] + script
        if net == "down":
            script = [(503, b"", 0)] * 9
        down = rt.rng.choice([True, True, True, False, None])
        srv.script, srv.seen = script, []
        rt.inputs(loader=cls, download=down, archive=have and have[0], extracted=extracted, served=[k for k, _ in served], network=net)
        rt.count()
        before = tree(root)
        url, mod.BASE_URL = mod.BASE_URL, f"http://127.0.0.1:{srv.port}/data"
        err = None
        try:
            ctor(root, **kw, **({} if down is None else {"download": down}))
        except Exception as e:
            err = e
        finally:
            mod.BASE_URL = url
        after = tree(root)
        seen = list(srv.seen)
        rt.require(not (top / "evil").exists() and not (top.parent / "evil").exists(), "nothing is written outside", None, None, key="evil")
        rt.require(all(s == "/data/" + arch for s in seen), "only the data set's archive is fetched", seen, "/data/" + arch, key="url")
        if not down:
            rt.require(not seen, "nothing is fetched unless downloading was requested", seen, [], key="quiet")
            rt.require(after == before, "nothing is changed unless downloading was requested", sorted(set(before) ^ set(after))[:4], "unchanged", key="quiet")
            rt.require((err is None) == extracted and (err is None or isinstance(err, FileNotFoundError)), "missing data is reported", repr(err), extracted, key="missing")
            continue
        # what has to happen
        q = list(script)
        want = 0

        def fetch():
            nonlocal want
            for a in range(2):
                want += 1
                k, b, _ = q.pop(0)
                if k == "ok":
                    return b
            return None
        cur = have[1] if have else fetch()
        res = "ok"
        if cur is None:
            res = "network"
        elif not extracted:
            label = {good: "good", unsafe: "unsafe"}.get(cur, "broken")
            if label == "broken":
                cur = fetch()
                label = "network" if cur is None else {good: "good", unsafe: "unsafe"}.get(cur, "broken")
            res = "ok" if label == "good" else label
        rt.require(len(seen) == want, "a missing archive is fetched, a broken one fetched again once, an existing one and an existing directory left alone", len(seen), want, key="requests")
        if res == "ok":
            rt.require(err is None, "the data set is available", repr(err)[:200], "constructed", key="ok")
            if extracted:
                rt.require({k: v for k, v in after.items() if k.startswith(folder + "/")} == {k: v for k, v in before.items() if k.startswith(folder + "/")}, "an extracted data set is not extracted again", None, None, key="kept")
            else:
                got = {k: v for k, v in after.items() if v is not None and k.startswith(folder + "/")}
                rt.require(got == {os.path.normpath(os.path.join(base, k)): v for k, v in inner.items()}, "the archive is extracted completely", sorted(got), sorted(inner), key="extracted")
        else:
            rt.require(err is not None, "a failure is reported", repr(err), res, key="fail")
            rt.require(isinstance(err, ValueError) == (res == "unsafe"), "the kind of failure is reported", repr(err)[:200], res, key="kind")
        held = after.get(os.path.normpath(os.path.join(base, arch)))
        rt.require(held is None or held == (have and have[1]) or held in [b for _, b in served], "no partial archive is left", held and len(held), "complete or absent", key="held")
