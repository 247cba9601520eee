"""C45: time and memory grow in proportion to the data."""
import time
import tracemalloc

import numpy as np
from hypothesis import strategies as st

from .. import calls, gen, kinds, net
from ..lib import Violation
from .c42 import one_call, settings

ID = "C45"
BUDGET = {"quick": 12, "thorough": 150}
RULE = ("case = a filter (in one run, sample by sample, or in chunks), network call or function with drawn options, and a pair of "
        "lengths, one many times the other. The processor time per sample (the least of several measurements, measured again "
        "when it looks too large) of the long data may be at most 2.5 times that of the short, the peak of memory per sample at "
        "most 2 times (beyond a fixed part). Non-trivial: both were measured")
MODES = ["run", "adapt", "predict", "chunks", "pretrained"]
NETS = ["run", "test", "train", "online"]
TIME, MEMORY, FREE = 2.5, 2.0, 300000
# functions with work of fixed size per sample, and how many samples fit a measurement
FNS = {"standardize": 2 ** 17, "standardize_os": 2 ** 17, "standardize_back": 2 ** 17, "input_from_history": 2000, "PCA": 2 ** 14,
       "PCA_components": 2 ** 14, "LDA": 1500, "LDA_discriminants": 1500, "learning_entropy": 1500, "learning_entropy_ms": 1500,
       "ELBND": 2 ** 14, "ESE": 40, "MSE": 2 ** 17, "MAE": 2 ** 17, "RMSE": 2 ** 17, "logSE": 2 ** 17, "get_mean_error": 2 ** 17,
       "MSE2": 2 ** 17, "MAE2": 2 ** 17, "RMSE2": 2 ** 17, "logSE2": 2 ** 17, "get_mean_error2": 2 ** 17}


@st.composite
def cases_(draw, tier):
    what = draw(st.sampled_from(["filter", "filter", "net", "call"]))
    case = {"what": what, "seed": draw(gen.SEEDS)}
    if what == "filter":
        case["cfg"] = draw(kinds.config(n=draw(st.integers(1, 6))))
        case["mode"] = draw(st.sampled_from(MODES))
        case["x"] = draw(st.sampled_from(["gauss", "ints", "sparse", "hist"]))
    elif what == "net":
        c = draw(net.shape())
        case["net"] = dict(c, layers=[min(v, 6) for v in c["layers"][:2]], n=min(c["n"], 6), mu="auto")
        case["mode"] = draw(st.sampled_from(NETS))
    else:
        case["call"] = draw(calls.call(sorted(FNS)))
        case["call"].update(n=min(3, max(1, case["call"]["n"])))
    return case


def cases(tier):
    return cases_(tier)


def fixed_cases(tier):
    out = []
    for i, kind in enumerate(kinds.KINDS):
        cfg = {"kind": kind, "n": 3, "opts": {}, "w": "zeros"}
        out += [{"what": "filter", "seed": i, "mode": m, "cfg": cfg, "x": "gauss"} for m in ("run", "adapt", "chunks")]
    out += [{"what": "filter", "seed": 3, "mode": m, "cfg": {"kind": k, "n": 3, "opts": {}, "w": "zeros"}, "x": "gauss"}
            for m in ("predict", "pretrained") for k in ("LMS", "AP", "OCNLMS")]
    out += [{"what": "net", "seed": 1, "mode": m, "net": {"layers": [3], "n": 2, "out": o, "act": "tanh", "mu": "auto", "seed": 4,
                                                         "box": "list"}} for m in NETS for o in (1, 2)]
    out += [dict(c, far=True) for c in out if c["what"] == "net" and c["net"]["out"] == 1 or c["what"] == "filter" and c["mode"] == "run"]
    out.append({"what": "call", "seed": 0, "flat": True, "call": one_call("ESE")})
    out += [{"what": "call", "seed": i, "call": one_call(fn)} for i, fn in enumerate(sorted(FNS))]
    return out


def work(case):
    """(short length, prepare(N) that gives a function to be measured, a name)."""
    what = case["what"]
    if what == "filter":
        c, mode = case["cfg"], case["mode"]
        n = c["n"]

        def prepare(N):
            f = kinds.make(c, settings(c))
            x = gen.expand_x({"seed": case["seed"] % 2 ** 31, "x": case["x"], "xs": 1.0}, N, n)
            d = np.random.RandomState(case["seed"] % 2 ** 31).normal(0, 1, N)

            def go():
                if mode == "run":
                    f.run(d, x)
                elif mode == "pretrained":
                    f.pretrained_run(d, x, ntrain=0.5, epochs=1)
                elif mode == "chunks":
                    for at in range(0, N, 20):
                        f.run(d[at:at + 20], x[at:at + 20])
                elif mode == "adapt":
                    for k in range(N):
                        f.adapt(d[k], x[k])
                else:
                    for k in range(N):
                        f.predict(x[k])
            return go
        return 600, prepare, "%s (%s)" % (c["kind"], mode)
    if what == "net":
        c, mode = case["net"], case["mode"]

        def prepare(N):
            nn = net.make(c)
            rs = np.random.RandomState(case["seed"] % 2 ** 31)
            x, d = rs.normal(0, 1, (N, c["n"])), rs.normal(0, 1, (N, c["out"]))
            d = d[:, 0] if c["out"] == 1 else d

            def go():
                if mode == "run":
                    nn.run(x)
                elif mode == "test":
                    nn.test(x, d)
                elif mode == "train":
                    nn.train(x, d, epochs=1)
                else:
                    for k in range(N):
                        nn.predict(x[k])
                        nn.update(d[k])
            return go
        return 250, prepare, "network (%s)" % mode
    c = case["call"]

    def prepare(N):
        t = dict(c, N=N, n=min(c["n"], N))
        if c["fn"] == "ESE":
            t["N"] = N + c["m"]
            if case.get("flat"):            # increments of one size: there is nothing to fit
                w = np.zeros((t["N"], t["n"]))
                w[::2] = 1.0
                return lambda: calls.execute(t, {"w": w})
        elif c["fn"].startswith("learning_entropy"):
            t["N"] = N + c["m"] + c["order"]
        a = calls.arrays(t)
        return lambda: calls.execute(t, a)
    return 1000 if case.get("flat") else FNS[c["fn"]], prepare, c["fn"]


def seconds(prepare, N):
    go = prepare(N)
    t = time.thread_time()
    go()
    return time.thread_time() - t


def peak(prepare, N):
    go = prepare(N)
    tracemalloc.start(1)
    try:
        go()
        return tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()


def check(case):
    short, prepare, name = work(case)
    times = 16 if case["what"] == "net" else 80
    if case.get("far"):
        times = 640 if case["what"] == "net" else 200
    if case["what"] == "call":
        fn = case["call"]["fn"]
        times = 16 if fn.startswith("LDA") else 8 if fn == "ESE" and short < 100 or short > 2 ** 16 else 32
    long = short * times
    with np.errstate(all="ignore"):
        try:
            prepare(short)()
        except Exception:
            return {"labels": [name + " (refused)"], "nontrivial": False}
        a = min(seconds(prepare, short) for _ in range(3))
        b = seconds(prepare, long)
        tries = 0
        while b > TIME * times * a and tries < (6 if b < 3 * TIME * times * a else 2):       # (the machine was busy with something else, or it is true)
            tries += 1
            a = max(a, min(seconds(prepare, short) for _ in range(5)))
            b = min(b, seconds(prepare, long))
        if b > (max(5.0 * times * a, 0.5) if short > 10000 else max(TIME * times * a, 0.05)):      # (large arrays: the system hands out the pages)
            raise Violation("%s: %.3g s for %d samples, %.3g s for %d samples: %.1f times as much per sample"
                            % (name, a, short, b, long, b / a / times))
        times, long = (times // 4, long // 4) if times < 200 else (10, 10 * short)
        p, q = peak(prepare, short), peak(prepare, long)
        if q > MEMORY * times * p + FREE:
            raise Violation("%s: takes %d bytes while at work on %d samples, %d bytes on %d samples"
                            % (name, p, short, q, long))
    return {"labels": [name], "nontrivial": True}
