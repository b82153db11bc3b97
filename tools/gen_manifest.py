"""Writes MANIFEST.json: one check per property that has contracts/<ID>.py; the rest not applicable."""
import json, os, sys, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(H, "tools", "not_applicable.json")) else {}
NOTES = json.load(open(os.path.join(H, "tools", "level_notes.json"))) if os.path.exists(os.path.join(H, "tools", "level_notes.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "contracts", i + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": "contract-based deductive verification: obligations generated from the current source by symbolic execution "
                                    "with loop summaries, discharged by z3; failing inputs from run-time evaluation of the same contracts",
                       "level": "proof",
                       "level_note": NOTES.get(i, "All-inputs proof over reals of the contracts listed in the evidence; trusts dv/ and its contracts "
                                                  "for torch; the run-time cross-check on real floats is bounded.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract within the verifier's reach has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo: the verified text is /repo's source, loaded and transformed mechanically on every run."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
