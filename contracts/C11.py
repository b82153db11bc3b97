"""C11: effects.  Every case of the functional contracts is executed again; here the obligations are the frame conditions:
no argument (tensor, container, object) is written, no module-level state changes, memo entries are determined by their
keys, and the process-wide generators are not used.  With no state to read, equal arguments give equal results after any
history of calls."""
import importlib, os, re
from dv.harness import Case

ID = "C11"
TRUSTED = ["dv/pure.py: the effects recorded by the tensor model (dv/tensor.py) are the effects of the code", "contracts/*: the cases that are executed again cover every branch of the listed functions for the stated inputs"]
ASSUMPTIONS = ["library calls (torch, scipy) modify no argument except through in-place operations, and draw from a global generator only through the functions listed in dv/shim_torch.py",
               "memo dictionaries start empty and are only filled by the code under contract"]
MODS = ["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C12", "C13", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24"]
QUICK = {"C18": r"rirs2d|looped timestamps|reject|wrong|mode", "C19": r"rirs2d|rirs4d signal2d$|rirs3d signal1d", "C21": r"^(?!minimum distance)|2-D margin given height|wrong|3-D margin given height None",
         "C24": r"^(?!.*motion)|2-D trajectories 3/3|3-D trajectories 2/None|3-D trajectories None/3"}
CASES = []
for _m in MODS:
    for _i, _c in enumerate(importlib.import_module(_m).CASES):
        if "lemma" in _c.name:
            continue
        if os.environ.get("DV_TIER", "quick") != "thorough":
            if not re.search(QUICK.get(_m, ""), _c.name) or _m == "C10" and _i % 5:
                continue
        o = dict(_c.opts)
        o.update(purity=True, frame=True)
        CASES.append(Case(f"{_m} {_c.name}", _c.fn, _c.functions, **o))
