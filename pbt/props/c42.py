"""C42: memory stays bounded, however many samples and calls there are."""
import gc
import pickle
import tracemalloc

import numpy as np
from hypothesis import strategies as st

from .. import calls, gen, kinds, net
from ..lib import Violation, pa
from .c38 import REFUSED, refuse

ID = "C42"
BUDGET = {"quick": 45, "thorough": 900}
RULE = ("case = a filter or network and a block of work for it (samples delivered in some mode, always new numbers), or a call "
        "of the library, a refused call, or an object that is made, used and dropped, many times over. After a first block the "
        "memory in use is measured (tracemalloc), after each of two more again, and the size of the pickled object: neither "
        "may grow with every block. Non-trivial: the work was done")


@st.composite
def cases_(draw, tier):
    what = draw(st.sampled_from(["filter"] * 5 + ["net", "net", "call", "call", "call", "objects", "refused"]))
    case = {"what": what, "seed": draw(gen.SEEDS), "mode": draw(st.sampled_from(["adapt", "online", "run", "mixed", "predict"]))}
    if what in ("filter", "objects"):
        case["cfg"] = draw(kinds.config(n=gen.tail(draw, 1, 5, 12)))
        case["cfg"]["opts"].pop("mu", None)
        case["chunk"] = draw(st.integers(1, 60))
        case["x"] = draw(st.sampled_from(["gauss", "gauss", "ints", "hist", "sparse"]))
    elif what == "net":
        c = draw(net.shape())
        case["net"] = dict(c, layers=[min(v, 6) for v in c["layers"][:3]], n=min(c["n"], 6), mu="auto")
        case["mode"] = draw(st.sampled_from(["online", "predict", "run", "test", "train", "shuffle"]))
    elif what == "call":
        case["call"] = draw(calls.call(calls.ALL))
        case["call"]["N"] = min(case["call"]["N"], 150)
    elif what == "refused":
        case["bad"] = draw(st.sampled_from(REFUSED))
        case["kind"] = draw(st.sampled_from(kinds.KINDS))
        case["how"] = draw(st.integers(0, 5))
    return case


def cases(tier):
    return cases_(tier)


FLOOR = (6000, 1)       # bytes that the interpreter may come to need for itself


def one_call(fn):
    """A plain call of a function, the same at every run."""
    c = {"fn": fn, "seed": 11, "N": 14, "n": 2, "sc": 1.0, "pat": "gauss", "os": [0.5, 2.0], "bias": True, "m": 3, "order": 1,
         "agg": "max", "of": "MSE", "k": 1, "cl": 2, "named": False, "kind": "NLMS", "w": "zeros", "o": "safe",
         "layers": [3, 2], "out": 1, "act": "tanh", "mu": "auto", "shuffle": True, "epochs": 2, "pot": "10%"}
    if fn == "ESE":
        c.update(m=20, N=23)
    return c


def fixed_cases(tier):
    """Every kind of filter in every mode, every network call, every function."""
    out = []
    for i, kind in enumerate(kinds.KINDS):
        cfg = {"kind": kind, "n": 2 + i % 2, "opts": {}, "w": "zeros"}
        out += [{"what": "filter", "seed": i, "mode": m, "cfg": cfg, "chunk": 20, "x": "gauss"} for m in ("run", "adapt", "online")]
        out.append({"what": "objects", "seed": i, "mode": "run", "cfg": cfg, "chunk": 20, "x": "gauss"})
    for m in ("online", "predict", "run", "test", "train", "shuffle"):
        out.append({"what": "net", "seed": 1, "mode": m, "net": {"layers": [3, 2], "n": 2, "out": 1 + (m == "online"),
                                                                "act": "tanh", "mu": "auto", "seed": 4, "box": "list"}})
    for i, fn in enumerate(calls.ALL):
        out.append({"what": "call", "seed": i, "mode": "", "call": one_call(fn)})
    for r in REFUSED:
        out.append({"what": "refused", "seed": 1, "mode": "", "bad": r, "kind": "LMS", "how": 2})
    return out


def work(case):
    """A function block(i) that does the i-th block of work, how many samples or calls it is, and the object."""
    what, mode = case["what"], case["mode"]
    rs = np.random.RandomState(case["seed"])
    if what == "filter":
        c = case["cfg"]
        n = c["n"]
        M = 1000
        f = kinds.make(c, settings(c))

        def block(i):
            x = gen.expand_x({"seed": (case["seed"] + i) % 2 ** 31, "x": case["x"], "xs": 1.0}, M, n)
            d = rs.normal(0, 1, M)
            at = 0
            while at < M:
                how = ("adapt", "online", "run")[at // case["chunk"] % 3] if mode == "mixed" else mode
                b = min(M, at + case["chunk"])
                if how == "run":
                    f.run(d[at:b], x[at:b])
                else:
                    for k in range(at, b):
                        if how != "adapt":
                            f.predict(x[k])
                        if how != "predict":
                            f.adapt(d[k], x[k])
                at = b
            if not np.all(np.abs(f.w) < 1e6):       # (an unlucky step size: what it does to the numbers is no matter here)
                f.w[:] = 0.0
        return block, M, f
    if what == "net":
        c = case["net"]
        nn = net.make(c)
        M = 200

        def block(i):
            x, d = rs.normal(0, 1, (M, c["n"])), rs.normal(0, 1, (M, c["out"]))
            d = d[:, 0] if c["out"] == 1 else d
            if mode in ("online", "predict"):
                for k in range(M):
                    nn.predict(x[k])
                    if mode == "online":
                        nn.update(d[k])
            elif mode == "run":
                nn.run(x)
            elif mode == "test":
                nn.test(x, d)
            else:
                nn.train(x[:40], d[:40], epochs=M // 40, shuffle=mode == "shuffle")
        return block, M, nn
    if what == "call":
        c = case["call"]
        M = 8 if c["fn"] in ("ESE", "mlp_train") else 30 if c["fn"] in calls.FIL + calls.ANN else 120

        def block(i):
            for k in range(M):
                t = dict(c, seed=(c["seed"] + M * i + k) % 2 ** 31)
                calls.execute(t, calls.arrays(t))
        return block, M, None
    if what == "objects":
        c = case["cfg"]
        M = 60

        def block(i):
            for k in range(M):
                f = kinds.make(c, settings(c), seed=(case["seed"] + k) % 2 ** 31)
                x, d = rs.normal(0, 1, (3, c["n"])), rs.normal(0, 1, 3)
                f.run(d, x) if k % 2 else f.adapt(d[0], x[0])
                pa.ann.NetworkMLP([2], c["n"]).predict(x[0])
        return block, M, None
    M = 150

    def block(i):
        for _ in range(M):
            refuse(case["bad"], case["kind"], case["how"])
    return block, M, None


def settings(c):
    """Options with which the filter stays where the numbers are ordinary."""
    o = dict(c["opts"])
    if c["kind"] == "RLS":
        o["mu"] = 0.99
    elif c["kind"] in ("NLMS", "AP", "GNGD", "OCNLMS"):
        o["mu"] = 0.2
    else:
        o["mu"] = 1e-3 / c["n"]
    if c["kind"].startswith("VSLMS"):
        o["ro"] = 1e-8
    return o


def used(obj):
    gc.collect()
    return tracemalloc.get_traced_memory()[0], len(pickle.dumps(obj)) if obj is not None else 0


def check(case):
    block, M, obj = work(case)
    tracemalloc.start(1)
    try:
        with np.errstate(all="ignore"):
            block(0)
            block(1)
            sizes = [used(obj)]
            for i in (2, 3, 4):
                block(i)
                sizes.append(used(obj))
    finally:
        tracemalloc.stop()
    growth = np.diff(np.array(sizes), axis=0)
    name = {"filter": lambda: "%s (%s)" % (case["cfg"]["kind"], case["mode"]), "net": lambda: "network (%s)" % case["mode"],
            "call": lambda: case["call"]["fn"], "objects": lambda: "%s objects made and dropped" % case["cfg"]["kind"],
            "refused": lambda: "refused calls (%s)" % case["bad"]}[case["what"]]()
    for j, which in ((0, "memory in use"), (1, "size of the object")):
        if np.all(growth[:, j] >= max(4 * M, FLOOR[j])):
            raise Violation("%s: the %s grows with the work: by %s bytes over blocks of %d samples or calls"
                            % (name, which, growth[:, j].tolist(), M))
    return {"labels": [case["what"], name], "nontrivial": True}
