"""C14: pretrained filtering equals training epochs followed by a test run."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds
from ..lib import Violation

ID = "C14"
BUDGET = {"quick": 1400, "thorough": 8000}
RULE = ("case = an earlier history of a filter, then pretrained_run with a drawn ratio and number of epochs, against a "
        "twin that gets the epochs and the test part as separate runs; then both continue. Non-trivial: at least one "
        "epoch that moves the weights")


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(typical=30, hi=800, lo=2))
    N = case["N"]
    case["ratio"] = draw(st.one_of(st.sampled_from([0.5, 0.25, 0.75, 0.9, 0.1, 0.3, 0.7, 0.01, 0.99]),
                                   st.floats(0.001, 0.999), st.integers(1, N - 1).map(lambda k: k / N)))
    case["epochs"] = draw(st.sampled_from([1, 1, 2, 3, 0, 5, 11]))
    case["omit"] = draw(st.sampled_from(["", "", "", "ratio", "epochs", "both"]))
    case["pre"] = draw(st.sampled_from([0, 0, 3]))
    case["pos"] = draw(st.booleans())
    return case


def cases(tier):
    return cases_(tier)


def check(case):
    c, x, d, opts = hist.prepare(case)
    n = c["n"]
    pre = min(case["pre"], len(d) - 2)
    hx, hd, x, d = x[:pre], d[:pre], x[pre:], d[pre:]
    N = len(d)
    ratio = 0.5 if case["omit"] in ("ratio", "both") else case["ratio"]
    epochs = 1 if case["omit"] in ("epochs", "both") else case["epochs"]
    T = int(Fraction(ratio) * N)
    if not 0 < T < N or T != int(N * ratio) or T != int(round(N * ratio * 1e9) // 1e9):
        T = max(1, min(N - 1, T))              # at a rounding boundary: take the middle of the range instead
        ratio = (T + 0.5) / N
    kw = {}
    if case["omit"] not in ("ratio", "both") or ratio != 0.5:
        kw["ntrain"] = ratio
    if case["omit"] not in ("epochs", "both"):
        kw["epochs"] = epochs
    f, g = kinds.make(c, opts), kinds.make(c, opts)
    for z in (f, g):
        if pre:
            hist.drive(z, [["run", pre]], hx, hd)
    if case["pos"] and "ntrain" in kw and "epochs" in kw:
        got = f.pretrained_run(d.copy(), x.copy(), kw["ntrain"], kw["epochs"])
    else:
        got = f.pretrained_run(d.copy(), x.copy(), **kw)
    before = np.array(g.w)
    for _ in range(epochs):
        g.run(d[:T].copy(), x[:T].copy())
    moved = not np.array_equal(before, g.w)
    want = g.run(d[T:].copy(), x[T:].copy())
    pairs = list(zip(("outputs", "errors", "weight history"), got, want)) + [("final weights", f.w, g.w)]
    pairs = [(a, np.array(b, dtype=float), np.array(c_, dtype=float)) for a, b, c_ in pairs]
    # and both go on
    y1, e1, w1 = f.run(d.copy(), x.copy())
    y2, e2, w2 = g.run(d.copy(), x.copy())
    pairs += [("later outputs", y1, y2), ("later weights", w1, w2)]
    for what, a, b in pairs:
        if a.shape != b.shape:
            raise Violation("pretrained_run(ntrain=%r, epochs=%r) on %d samples: %s have shape %s instead of %s"
                            % (ratio, epochs, N, what, a.shape, b.shape))
        ok = ~(np.abs(b) < 1e80) | (np.abs(a - b) <= 1e-9 * np.max(np.abs(np.where(np.abs(b) < 1e80, b, 0)), initial=0))
        if not ok.all() and not np.array_equal(a, b, equal_nan=True) and not chaotic(c, opts, x, d, T, epochs, hx, hd):
            raise Violation("%s: pretrained_run(ntrain=%r, epochs=%r) on %d samples: %s differ from those of %d runs "
                            "over the first %d samples and one over the rest" % (c["kind"], ratio, epochs, N, what,
                                                                                epochs, T))
    return {"labels": common.labels(case) + ["epochs:%d" % epochs] + (["defaults"] if case["omit"] else []),
            "nontrivial": moved}


def chaotic(c, opts, x, d, T, epochs, hx, hd):
    """Whether perturbations of 1e-13 show in this history (then rounding may show as well)."""
    out = []
    for seed in (None, 1, 2):
        xx, dd = (x, d) if seed is None else hist.perturbed(c, x, d, seed)
        f = kinds.make(c, opts)
        if len(hd):
            f.run(hd, hx)
        for _ in range(epochs):
            f.run(dd[:T], xx[:T])
        f.run(dd[T:], xx[T:])
        f.run(dd, xx)
        out.append(np.array(f.w))
    gap = max(np.max(np.abs(out[0] - o)) for o in out[1:])
    return not gap <= 1e-9 * np.max(np.abs(out[0]))
