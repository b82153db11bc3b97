"""C25 runtime contracts: safe archive extraction.  Everything happens in a scratch directory; every escape a member
attempts resolves inside that scratch directory (climbs are limited to its depth, absolute names lie below it)."""
import io, os, pathlib, shutil, tarfile


def tree(top):
    out = {}
    for d, ds, fs in os.walk(top, followlinks=False):
        for n in ds + fs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[p] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[p] = ("dir",)
            elif os.path.isfile(p):
                out[p] = ("file", open(p, "rb").read())
            else:
                out[p] = ("other",)
    return out


def run(rt):
    extract = rt.get("torchrir.datasets._archive:safe_extractall", True)
    top = os.path.realpath(rt.tmpdir())

    for i in rt.rounds(900, 9000, .9):
        work = os.path.join(top, "w")
        shutil.rmtree(work, ignore_errors=True)
        base = os.path.join(work, "a", "b", "c", "d")
        os.makedirs(base)
        dest = os.path.join(base, "out")
        outside = os.path.join(base, "out2")
        os.makedirs(outside)
        open(os.path.join(outside, "keep"), "w").write("keep")
        state = rt.rng.choice(["absent", "empty", "filled", "filled", "filled"])
        given = dest
        if state != "absent":
            os.makedirs(dest)
        if state == "filled":
            os.makedirs(os.path.join(dest, "sub", "deep"))
            open(os.path.join(dest, "old"), "w").write("old")
            os.symlink(outside, os.path.join(dest, "ln_out"))
            os.symlink("sub", os.path.join(dest, "ln_in"))
            os.symlink(os.path.join(outside, "nothing"), os.path.join(dest, "ln_dangling"))
            os.symlink("../../out2", os.path.join(dest, "sub", "ln_rel"))
        if state != "absent" and rt.rng.random() < .25:
            given = os.path.join(base, "alias")
            os.symlink("out", given)
        if rt.rng.random() < .2:
            given = os.path.join(base, "..", "d", os.path.basename(given))
        good = ["x", "./x", "p/q.wav", "sub/z", "p/./r", "deep name/é.txt", "..x", "x..y", "...", "p..q/r", dest + "/abs"]
        evil = ["../x", "../../y", "p/../../x", "sub/../../x", dest + "2/x", "../out2/x", "../out2", "../out2/keep", outside + "/abs", "./../x", "../outside_new/x", "x/../../../e"]
        if state == "filled":
            good += ["sub/../b", "ln_in/c", "sub/deep/../e", "old"]
            evil += ["ln_out/x", "ln_out", "ln_dangling", "sub/ln_rel/x", "ln_out/keep", "ln_in/ln_rel/n", "ln_in/../../x"]
        n = rt.size(0, 12, [1, 2, 3], big=120)
        kinds = []
        for _ in range(n):
            kinds.append((rt.rng.choice(good), "file" if rt.rng.random() < .8 else "dir"))
        hostile = rt.rng.choice([None, "evil", "evil", "evil", "sym", "hard", "sym_in"]) if rt.rng.random() < .75 else None
        if hostile:
            bad = (rt.rng.choice(evil), "file" if rt.rng.random() < .85 else "dir") if hostile == "evil" else (rt.rng.choice(["lk", "p/lk", "sub/lk"]), hostile)
            kinds.insert(rt.rng.choice([0, len(kinds), rt.rng.randint(0, len(kinds))]), bad)
            if rt.rng.random() < .15:
                kinds.insert(0, bad)
        # directories must not collide with files
        files, seen, members = {}, {}, []
        real = os.path.realpath(given)
        for name, kind in kinds:
            where = os.path.realpath(os.path.join(real, name))
            if kind == "dir" and (seen.get(where, "dir") != "dir" or os.path.isfile(where) or os.path.islink(os.path.join(real, name))):
                continue
            if kind == "file" and (seen.get(where) == "dir" or os.path.isdir(where) and not name.startswith(("../out2", "ln_"))):
                continue
            seen[where] = kind
            members.append((name, kind, where))
        mode, ext = rt.rng.choice([("w", "tar"), ("w:gz", "tar.gz"), ("w:bz2", "tar.bz2")])
        arc = os.path.join(work, "x." + ext)
        with tarfile.open(arc, mode, format=rt.rng.choice([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT])) as t:
            for j, (name, kind, where) in enumerate(members):
                ti = tarfile.TarInfo(name)
                if kind == "file":
                    data = os.urandom(rt.rng.choice([0, 1, 700])) if rt.rng.random() < .5 else f"{i}:{j}".encode()
                    ti.size = len(data)
                    t.addfile(ti, io.BytesIO(data))
                    files[where] = data
                elif kind == "dir":
                    ti.type, ti.mode = tarfile.DIRTYPE, 0o755
                    t.addfile(ti)
                else:
                    ti.type = tarfile.LNKTYPE if kind == "hard" else tarfile.SYMTYPE
                    ti.linkname = "x" if kind == "sym_in" else rt.rng.choice(["../out2", outside, "x", "../../.."]) if kind == "sym" else rt.rng.choice(["x", "../out2/keep", "p/q.wav"])
                    t.addfile(ti)
        inside = lambda p: p == real or p.startswith(real + os.sep)
        must_reject = [m for m in members if m[1] in ("sym", "sym_in", "hard") or not inside(m[2])]
        rt.inputs(members=[m[:2] for m in members], destination=os.path.relpath(given, work), destination_state=state, bad=[m[:2] for m in must_reject])
        rt.count()
        before = tree(work)
        err = None
        with tarfile.open(arc, "r:*" if rt.rng.random() < .8 else "r") as t:
            try:
                extract(t, pathlib.Path(given))
            except Exception as e:
                err = e
        after = tree(work)
        changed = {os.path.relpath(p, work): (before.get(p, ("absent",))[0], after.get(p, ("absent",))[0]) for p in before.keys() | after.keys() if before.get(p) != after.get(p)}
        out = [p for p in changed if not inside(os.path.join(work, p))]
        rt.require(not out, "nothing outside the destination is created, changed or removed", out[:4], [], key="out")
        if must_reject:
            rt.require(isinstance(err, ValueError), "an archive with a link or an escaping member is rejected with ValueError", repr(err), "ValueError", key="rej")
            touched = {k: v for k, v in changed.items() if os.path.join(work, k) != dest}
            rt.require(not touched, "a rejected archive leaves the destination as it was", dict(list(touched.items())[:4]), {}, key="part")
        else:
            rt.require(err is None, "an archive whose members all stay inside is extracted", repr(err), "no error", key="acc")
            if err is None:
                for w, data in files.items():
                    rt.require(after.get(w) == ("file", data), "every file of the archive is extracted at its place, with its content", (os.path.relpath(w, work), after.get(w, ("absent",))[0]), "file", key="content")
                for name, kind, w in members:
                    if kind == "dir":
                        rt.require(os.path.isdir(w), "every directory of the archive is extracted", name, "directory", key="dir")
                for p, v in before.items():
                    rt.require(p in files or after.get(p) == v, "files not named in the archive are untouched", os.path.relpath(p, work), "unchanged", key="other")
