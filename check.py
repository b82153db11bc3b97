#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--case SUBSTR] [--verbose]
Decides one property: (1) generates the proof obligations of its contracts from /repo's current source and discharges
them (dv/, contracts/<ID>.py); (2) evaluates the same contracts at run time on the real code (concrete/<ID>.py), which
supplies failing inputs.  Exit 0: every obligation discharged and no contract fired.  Exit 1 + VIOLATION line otherwise."""
import sys, os
VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and os.path.exists(VT):
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
import argparse, importlib, json, re, subprocess, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("EVIDENCE_DIR") or os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "contracts"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
RTPY = "/opt/venv/bin/python"


def start_concrete(pid, seed, tier, budget, hints, known):
    fd, out = tempfile.mkstemp(prefix=f"rt_{pid}_", suffix=".json")
    os.close(fd)
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="2", MPLCONFIGDIR=tempfile.gettempdir() + "/verif_mpl")
    env.pop("PYTHONPATH", None)
    p = subprocess.Popen([RTPY, os.path.join(HERE, "concrete", "rt.py"), pid, "--out", out, "--seed", str(seed), "--tier", tier, "--budget",
                          str(budget), "--hints", json.dumps(hints), "--known", json.dumps(known)], env=env, stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, text=True, cwd=HERE, start_new_session=True)
    return p, out, budget


def end_concrete(h):
    p, out, budget = h
    try:
        _, err = p.communicate(timeout=budget + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"error": "runtime contract run timed out", "violation": None, "evaluations": 0}
    try:
        r = json.load(open(out))
    except Exception:
        r = {"error": f"runtime contract run ended with {p.returncode}: {err[-1500:]}", "violation": None, "evaluations": 0}
    try:
        os.unlink(out)
    except OSError:
        pass
    return r


def known_findings(pid):
    keys, fixed = [], []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                keys.append(d)
    return keys


def hints_of(failed):
    ints, floats = [], []
    for r in failed:
        txt = json.dumps(r.get("model") or "") + " " + r.get("detail", "")
        for x in re.findall(r"(?<![\w.])-?\d+(?![\w.])", txt):
            if len(x) < 8:
                ints.append(int(x))
        for x in re.findall(r"-?\d+\.\d+", txt):
            floats.append(float(x))
    return {"ints": sorted(set(ints))[:60], "floats": sorted(set(floats))[:40]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default="")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-concrete", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid, tier = a.id, a.tier if a.tier in ("quick", "thorough") else "quick"
    os.environ["DV_TIER"] = tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    known = known_findings(pid)
    kkeys = [k["key"] for k in known]
    cb = 30 if tier == "quick" else 240
    ch = None
    if not a.no_concrete:
        ch = start_concrete(pid, seed, tier, cb, {}, kkeys)
    results, mod, gen_error = [], None, None
    if not a.no_proof:
        try:
            from dv import harness
            mod = importlib.import_module(pid)
            cases = [c for c in mod.CASES if a.case in c.name]
            if tier == "thorough":
                for c in cases:
                    c.opts["ms"] = 3 * c.opts.get("ms", 10000)
                    c.opts["budget"] = 3 * c.opts.get("budget", 120)
            results = harness.run_cases(cases, budget=240 if tier == "quick" else 600, jobs=8,
                                        total=420 if tier == "quick" else 3600)
        except Exception as e:
            import traceback
            gen_error = traceback.format_exc()[-2500:]
    conc = end_concrete(ch) if ch else {"violation": None, "error": None, "evaluations": 0, "skipped": True}
    obl, failed = [], []
    if gen_error:
        failed.append({"case": "generation", "label": "obligations can be generated", "ok": False, "detail": gen_error, "backend": "-", "t": 0})
    for r in results:
        for x in r["results"]:
            x["case"] = r["case"]
            obl.append(x)
            if not x["ok"]:
                failed.append(x)
        if r["error"] and not any(not x["ok"] for x in r["results"]):
            failed.append({"case": r["case"], "label": "case completes", "ok": False, "detail": r["error"], "backend": "-", "t": r["t"]})
        elif not r["results"] and not r["error"]:
            failed.append({"case": r["case"], "label": "non-empty obligation set", "ok": False, "detail": "no obligation generated", "backend": "-", "t": 0})
    # a failed obligation without a failing input: search again, steered by the solver's models
    second = None
    if failed and not a.no_concrete and not conc.get("violation"):
        second = end_concrete(start_concrete(pid, seed + 1000, tier, 60 if tier == "quick" else 240, hints_of(failed), kkeys))
        if second.get("violation"):
            conc["violation"] = second["violation"]
        conc["evaluations"] = conc.get("evaluations", 0) + second.get("evaluations", 0)
    if a.verbose:
        for r in results:
            print(f"{r['case']}: paths {r['paths']} infeasible {r['infeasible']} error {r['error']} t {r['t']}")
            for x in r["results"]:
                if not x["ok"] or a.verbose:
                    print("   ", "ok " if x["ok"] else "BAD", x.get("path", ""), x["label"], x["t"], x["backend"], x["detail"][:1200])
                    if x.get("model"):
                        print("        model", str(x["model"])[:600])
    viol = conc.get("violation")
    bad = bool(viol or failed or conc.get("error"))
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    replay = os.path.join(EVID, "replay", f"{pid}.json")
    discharged = sum(1 for x in obl if x["ok"])
    backends = {}
    for x in obl:
        b = backends.setdefault(x["backend"], {"obligations": 0, "discharged": 0, "seconds": 0.0})
        b["obligations"] += 1
        b["discharged"] += bool(x["ok"])
        b["seconds"] = round(b["seconds"] + x["t"], 2)
    funcs = sorted({f for c in (mod.CASES if mod else []) for f in c.functions})
    trusted = list(TRUSTED) + list(getattr(mod, "TRUSTED", []) if mod else [])
    names = {}
    for x in obl:
        names.setdefault(x["case"], []).append(x["label"])
    cov = {"obligations": len(obl) + sum(1 for f in failed if f not in obl), "discharged": discharged,
           "checker_cmd": f"python3 check.py {pid}" + (" --tier thorough" if tier == "thorough" else ""),
           "trusted_base": trusted, "functions_under_contract": funcs, "back_ends": backends,
           "solver_seconds": round(sum(x["t"] for x in obl), 2),
           "cases": {r["case"]: {"paths": r["paths"], "infeasible_paths": r["infeasible"], "seconds": r["t"], "obligations": len(r["results"])} for r in results},
           "obligation_labels": {k: sorted(set(v))[:40] for k, v in names.items()},
           "explanation": getattr(mod, "__doc__", "") or "",
           "bounded_parts": list(getattr(mod, "BOUNDED", [])) if mod else [],
           "evaluations": conc.get("evaluations", 0), "distinct_nontrivial": conc.get("distinct", 0),
           "rule": "runtime cross-check of the same contracts on the real code (bounded; never counted as proved): seeded random inputs plus "
                   "boundary sizes; a case counts once per distinct shape/configuration key", "samples": conc.get("samples", []),
           "runtime_contracts": conc.get("contracts", {})}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": list(ASSUMPTIONS) + list(getattr(mod, "ASSUMPTIONS", []) if mod else []), "violations": 1 if bad else 0}
    json.dump(ev, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1, default=str)
    for k in known:
        if k["key"] in conc.get("known_hit", {}):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if not bad:
        print(f"{pid}: {discharged}/{len(obl)} obligations discharged over {len(results)} cases; {conc.get('evaluations')} runtime evaluations; {ev['wall_s']} s")
        return 0
    rec = {"property": pid, "failing_input": viol, "failed_obligations": [{k: v for k, v in f.items()} for f in failed][:20],
           "runtime_error": conc.get("error"),
           "reproduce": f"cd /verif && VERIF_SEED={seed} /opt/venv/bin/python concrete/rt.py {pid} --seed {seed if not (second and second.get('violation')) else seed + 1000}"}
    json.dump(rec, open(replay, "w"), indent=1, default=str)
    for f in failed[:8]:
        print(f"undischarged: [{f['case']}] {f['label']}: {str(f.get('detail'))[:500]}")
    if viol:
        print(f"failing input: {viol['contract']}: inputs {json.dumps(viol['inputs'], default=str)[:700]} expected {json.dumps(viol['expected'], default=str)[:300]} observed {json.dumps(viol['observed'], default=str)[:500]}")
        print(f"VIOLATION property={pid} replay={replay}")
    else:
        if conc.get("error"):
            print("runtime contracts:", conc["error"][-800:])
        print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
    return 1


TRUSTED = ["dv/: the verification-condition generator (symbolic execution of the transformed source, loop summaries with re-checked "
           "inductive steps) and its sum/index rewrite rules", "z3 5.x (python3-vt)",
           "dv/shim_*.py: contracts assumed for torch and standard-library operations",
           "dv/loader.py: the mechanical source transformation (drops: docstrings, annotations, logging; keeps every other statement)"]
ASSUMPTIONS = ["floating point is treated as real arithmetic in the proofs (the runtime cross-check executes the real floats)",
               "machine integers are treated as mathematical integers", "single-threaded use"]

if __name__ == "__main__":
    sys.exit(main())
