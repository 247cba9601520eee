"""C32: only ESE needs SciPy."""
import json
import os
import pickle
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from .. import calls, lib
from ..lib import Violation, pa

ID = "C32"
BUDGET = {"quick": 14, "thorough": 250}
RULE = ("case = (way in which SciPy is missing, up to 40 calls of any part of the library, kinds of arguments for ESE): "
        "an interpreter without SciPy makes the calls, and its results are compared with those of this process, which "
        "has SciPy. Non-trivial: at least five calls")
MODES = ["none", "scipy/ImportError", "scipy/ModuleNotFoundError", "scipy.stats/ImportError",
         "scipy.stats/ModuleNotFoundError", "none.stats", "scipy/bare", "scipy.stats/bare", "scipy.stats/other"]
PUBLIC = [c for c in calls.ALL if c != "ESE"]


@st.composite
def cases_(draw, tier):
    return {"mode": draw(st.sampled_from(MODES)),
            "calls": draw(st.lists(calls.call(PUBLIC), min_size=1, max_size=40)),
            "ese": draw(st.lists(st.sampled_from(["usual", "none", "text", "many", "odd", "method", "kw", "empty"]),
                                 min_size=1, max_size=3))}


def cases(tier):
    return cases_(tier)


def fixed_cases(tier):
    base = {"seed": 5, "N": 20, "n": 3, "sc": 1.0, "k": 2, "cl": 2, "bias": True, "m": 4, "order": 1, "agg": "sum",
            "of": "MAE", "kind": "NLMS", "w": "random", "layers": [3], "out": 1, "act": "tanh", "mu": "auto",
            "shuffle": True, "epochs": 2}
    every = [dict(base, fn=fn) for fn in PUBLIC]
    for fn in calls.FIL:
        from .. import kinds
        every += [dict(base, fn=fn, kind=k) for k in kinds.KINDS]
    return [{"mode": m, "calls": every, "ese": ["usual", "none", "text", "many", "odd", "method", "kw", "empty"]}
            for m in MODES]


def check(case):
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PADASIP_REPO=lib.REPO, PYTHONPATH=here)
    p = subprocess.run([sys.executable, "-m", "pbt.noscipy", case["mode"]], cwd=here, env=env, timeout=300,
                       input=json.dumps({"calls": case["calls"], "ese": case["ese"]}).encode(), capture_output=True)
    if p.returncode != 0:
        raise Violation("without SciPy (%s) the interpreter ends with %d: %s"
                        % (case["mode"], p.returncode, p.stderr.decode()[-500:]))
    out = pickle.loads(p.stdout)
    if "import" in out:
        raise Violation("without SciPy (%s) the package cannot be imported: %s" % (case["mode"], out["import"]))
    if out["scipy"]:
        raise AssertionError("SciPy was not kept away: %s" % out["scipy"][:3])
    for c, (how, got) in zip(case["calls"], out["results"]):
        np.random.seed(c["seed"] % 2 ** 32)
        want = calls.frozen(calls.execute(c, calls.arrays(c)))
        if how != "ok":
            raise Violation("without SciPy (%s) %s raises %s" % (case["mode"], c["fn"], got))
        for i, (a, b) in enumerate(zip(want, got)):
            if np.shape(a) != np.shape(b) or not np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True):
                raise Violation("without SciPy (%s) result %d of %s differs" % (case["mode"], i, c["fn"]))
    for kind, got in zip(case["ese"], out["ese"]):
        if got != "ImportError":
            raise Violation("without SciPy (%s) ESE called with %s arguments: %s instead of an ImportError"
                            % (case["mode"], kind, got))
    for m, names in out["names"].items():
        mod = pa if m == "pa" else getattr(pa, m)
        have = set(n for n in dir(mod) if not n.startswith("_") and callable(getattr(mod, n))
                   and str(getattr(getattr(mod, n), "__module__", "")).startswith("padasip"))
        gone = have - set(names)
        if gone:
            raise Violation("without SciPy (%s) the names %s are missing in %s" % (case["mode"], sorted(gone), m))
    return {"labels": ["mode:" + case["mode"]] + sorted({"fn:" + c["fn"] for c in case["calls"]}),
            "nontrivial": len(case["calls"]) >= 5}
