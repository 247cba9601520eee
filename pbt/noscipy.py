"""Runs calls given on stdin in an interpreter in which importing SciPy fails; writes the results to stdout.

Usage: python -m pbt.noscipy MODE
"""
import importlib.abc
import json
import pickle
import sys


class Block(importlib.abc.MetaPathFinder):
    def __init__(self, names, exc):
        self.names, self.exc = names, exc

    def find_spec(self, fullname, path=None, target=None):
        if any(fullname == n or fullname.startswith(n + ".") for n in self.names):
            if self.exc == "bare":
                raise ImportError("DLL load failed")
            if self.exc == "other":
                raise ImportError("cannot import name 'x' from 'y'", name="y")
            raise self.exc("No module named %r" % fullname, name=fullname)
        return None


def block(mode):
    if mode == "none":
        sys.modules["scipy"] = None
        return
    if mode == "none.stats":
        sys.modules["scipy.stats"] = None
        return
    what, exc = mode.split("/")
    sys.meta_path.insert(0, Block([what], {"ImportError": ImportError, "ModuleNotFoundError": ModuleNotFoundError}.get(exc, exc)))


def ese_args(kind, np):
    w = np.cumsum(np.random.RandomState(1).normal(0, 1, (30, 2)), axis=0)
    return {"usual": ((w,), {"window": 15}), "none": ((), {}), "text": (("x",), {}), "many": ((1, 2, 3, 4, 5), {}),
            "odd": ((w,), {"nonsense": 3}), "method": ((w, 12, "sqrt"), {}), "kw": ((), {"w": w, "pot_method": "30%"}),
            "empty": ((np.zeros((0, 0)),), {})}[kind]


def main():
    mode = sys.argv[1]
    block(mode)
    job = json.load(sys.stdin)
    out = {"results": [], "ese": []}
    try:
        from . import lib
    except BaseException as exc:
        out["import"] = "%s: %s" % (type(exc).__name__, exc)
        sys.stdout.buffer.write(pickle.dumps(out))
        return
    np, pa = lib.np, lib.pa
    from . import calls
    for c in job["calls"]:
        np.random.seed(c["seed"] % 2 ** 32)
        try:
            out["results"].append(("ok", calls.frozen(calls.execute(c, calls.arrays(c)))))
        except BaseException as exc:
            out["results"].append(("raised", "%s: %s" % (type(exc).__name__, exc)))
    for kind in job["ese"]:
        a, k = ese_args(kind, np)
        try:
            pa.detection.ESE(*a, **k)
            out["ese"].append("no exception")
        except BaseException as exc:
            out["ese"].append("ImportError" if isinstance(exc, ImportError) else "%s: %s" % (type(exc).__name__, exc))
    out["names"] = {m: sorted(n for n in dir(getattr(pa, m)) if not n.startswith("_"))
                    for m in ("filters", "detection", "preprocess", "misc", "ann")}
    out["names"]["pa"] = sorted(n for n in dir(pa) if not n.startswith("_"))
    out["scipy"] = sorted(m for m in sys.modules if m.startswith("scipy.stats") and sys.modules[m] is not None)
    sys.stdout.buffer.write(pickle.dumps(out))


if __name__ == "__main__":
    main()
