"""Plant a bug: python3 tools/seed.py SPEC.py  -- SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].

Writes seeded/<id>/ after confirming, in a scratch copy of /repo: the patch applies and only replaces lines of the original
commit, the stable tests pass, demo.sh exits 0 without and nonzero with the patch.  Then runs the property's check with
DV/concrete pointed at the copy (RT_SRC / DV_SRC) and prints what it says.
"""
import json, os, runpy, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "2a4fa17"
W = "/tmp/seedwork"
def sh(cmd, cwd=None, t=600, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=e)
def fresh():
    subprocess.run(["rm", "-rf", W]); sh(f"cp -a /repo {W} && git -C {W} checkout -q -- .")
def stable():
    r = json.load(open("/opt/vp/BASELINE.json"))
    return r
def tests():
    r = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -5", cwd=W, env={"PYTHONPATH": W + "/src"})
    return " passed" in r.stdout and " failed" not in r.stdout and "error" not in r.stdout.lower(), r.stdout[-600:]
def orig_only(diff_files):
    bad = []
    for f in diff_files:
        r = sh(f"git diff -U0 -- {f}", cwd=W).stdout
        import re
        removed = []
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", r, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            removed += list(range(a, a + n))
        if not removed: bad.append(f + ": nothing removed")
        bl = sh(f"git blame -s HEAD -- {f}", cwd=W).stdout.splitlines()
        base = sh(f"git rev-list {BASE}", cwd=W).stdout.split()
        for k in removed:
            h = bl[k - 1].split()[0].lstrip("^")
            if not any(b.startswith(h) for b in base): bad.append(f"{f}:{k} from {h}")
    return bad
def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]; only = set(sys.argv[2:])
    for b in spec:
        if only and b["id"] not in only: continue
        fresh(); d = os.path.join(H, "seeded", b["id"]); tmpd = "/tmp/seed_demo"; subprocess.run(["rm", "-rf", tmpd]); os.makedirs(tmpd)
        open(tmpd + "/demo.py", "w").write(b["demo"])
        open(tmpd + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python "$d/demo.py"\n')
        r0 = sh(f"bash {tmpd}/demo.sh", cwd=W)
        if r0.returncode: print(b["id"], "DEMO FAILS UNCHANGED:", (r0.stdout + r0.stderr)[-800:]); continue
        ok = True
        for f, o, n in b["edits"]:
            p = os.path.join(W, f); s = open(p).read()
            if s.count(o) != 1: print(b["id"], "EDIT matches", s.count(o), "times in", f); ok = False; break
            open(p, "w").write(s.replace(o, n))
        if not ok: continue
        bad = orig_only(sorted({f for f, _, _ in b["edits"]}))
        if bad: print(b["id"], "NOT ORIGINAL", bad); continue
        r1 = sh(f"bash {tmpd}/demo.sh", cwd=W)
        if r1.returncode == 0: print(b["id"], "DEMO PASSES WITH BUG", r1.stdout[-300:]); continue
        tok, tout = tests()
        if not tok: print(b["id"], "TESTS FAIL", tout); continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
        for f in ("demo.py", "demo.sh"): shutil.copy(tmpd + "/" + f, d + "/" + f)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        chk(b["id"], b["property"])
def chk(i, prop):
    # development only: the registered checks read /repo; here a patched copy stands in, so that nothing races with /repo
    fresh()
    d = os.path.join(H, "seeded", i)
    a = sh(f"git apply {d}/patch.diff", cwd=W)
    r = sh(f"python3 check.py {prop}", cwd=H, t=1200, env={"VERIF_REPO": W, "DV_SRC": W + "/src", "EVIDENCE_DIR": "/tmp/seed_evidence"})
    print(i, prop, "rc", r.returncode, a.stderr, "|", " ".join(l for l in r.stdout.splitlines() if "VIOLATION" in l)[:300] or r.stdout[-200:], flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "--chk":
        for i in sys.argv[2:] or sorted(os.listdir(H + "/seeded")):
            chk(i, json.load(open(f"{H}/seeded/{i}/meta.json"))["property"])
    else: main()
