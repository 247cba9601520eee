"""C22: Extreme Seeking Entropy scores improbable increments within its window."""
import functools

import numpy as np
from hypothesis import strategies as st

from .. import gen, wh
from ..lib import Violation, pa

ID = "C22"
BUDGET = {"quick": 70, "thorough": 1200}
RULE = ("case = (weight history, window, peak selection, relation): every value against the sum over weights of "
        "-log10(1-F+1e-20) with F fitted anew by SciPy to the peaks of the window, and against the result for a "
        "related history. Non-trivial: at least one value above zero")
ASSUMPTIONS = ["scipy.stats.genpareto is the oracle for the fit and the distribution function",
               "where the fit depends on the order of the peaks, results within the spread of both orders are accepted"]
METHODS = ["10%", "sqrt", "30%", "log10", "log10log10", "10%", "35%"]
RELS = ["none", "constant", "permute", "later", "additive", "negate"]


@st.composite
def cases_(draw, tier):
    c = draw(st.integers(0, 19))
    m = draw(st.integers(11, 45)) if c < 16 else draw(st.integers(46, 130)) if c < 19 else \
        draw(st.sampled_from([99, 100, 101, 200, 250, 400] + ([1000] if tier == "thorough" else [])))
    more = draw(st.integers(1, 8)) if c < 19 else draw(st.integers(1, 5))
    if draw(st.integers(0, 9)) == 0:
        more = draw(st.integers(80, 130)) if m < 60 else more
    n = draw(st.integers(1, 3)) if more < 50 else 1
    if draw(st.integers(0, 11)) == 0:
        n, more = gen.tail(draw, 4, 20, 40, "detection", 70), draw(st.integers(1, 2))
    return {"m": m, "N": m + more, "n": n, "f": draw(st.sampled_from(METHODS)),
            "w": draw(wh.spec(["walk", "intwalk", "jumps", "filter", "heavy", "settle", "noise", "mixed", "burst",
                               "const", "ramp"])),
            "boost": draw(st.sampled_from([0, 0, 1, 1, 2])), "rel": draw(st.sampled_from(RELS)),
            "at": draw(st.floats(0, 1)), "default": draw(st.integers(0, 3)) == 0}


def cases(tier):
    return cases_(tier)


def ese(w, m, f, default=False):
    kw = {} if f == "10%" and default else {"pot_method": f}
    r = np.asarray(pa.detection.ESE(w, window=m, **kw))
    if r.shape != (len(w),):
        raise Violation("ESE of a history %s has the shape %s" % (w.shape, r.shape))
    return r.astype(float)


def count(n, f):
    k = {"10%": n // 10, "30%": 3 * n // 10, "35%": 35 * n // 100, "sqrt": int(np.floor(np.sqrt(n))),
         "log10": int(np.floor(np.log10(n))), "log10log10": int((n ** (2 / 3)) / np.log10(np.log10(n)))}[f]
    return min(max(k, 1), n)


def float_count_differs(n, f):
    """Windows for which the percentage in floats and in whole numbers give another count: either is fine."""
    p = {"10%": 0.1, "30%": 0.3, "35%": 0.35}.get(f)
    return p is not None and max(int(p * n), 1) != count(n, f)


def score(x, shape, loc, scale):
    from scipy.stats import genpareto
    F = genpareto.cdf(x, shape, loc, scale)
    d = 1e-15
    if F == 1 and genpareto.sf(loc + 0.9 * (x - loc), shape, loc, scale) < 1e-25:
        d = 1e-23               # far out, where no rounding leaves anything of 1-F
    return -np.log10(1 - F + 1e-20), -np.log10(1 - F + d + 1e-20), -np.log10(max(1 - F - d, 0) + 1e-20)


@functools.lru_cache(maxsize=20000)
def fit(peaks):
    from scipy.stats import genpareto
    return genpareto.fit(np.array(peaks), floc=min(peaks))


def one(x, peaks, both):
    """Value of one increment above the smallest peak, with the bounds that rounding and the fit leave open."""
    a = score(x, *fit(peaks))
    b = score(x, *fit(peaks[::-1])) if both else a
    lo, hi = min(a[1], b[1]), max(a[2], b[2])
    s = 5 * abs(a[0] - b[0]) if np.isfinite(a[0] - b[0]) else np.inf
    return a[0], lo - s - 1e-9, hi + s + 1e-9


def reference(w, m, f, both=False):
    N, n = w.shape
    D = np.zeros(w.shape)
    D[1:] = np.abs(w[1:] - w[:-1])
    val, lo, hi = np.zeros((N, n)), np.zeros((N, n)), np.zeros((N, n))
    k = count(m, f)
    for i in range(m, N):
        for j in range(n):
            peaks = np.sort(D[i - m:i, j])[::-1][:k]
            if D[i, j] > peaks[-1]:
                val[i, j], lo[i, j], hi[i, j] = one(float(D[i, j]), tuple(peaks), both)
    return val, lo, hi


def check(case):
    m, N, n, f = case["m"], case["N"], case["n"], case["f"]
    if float_count_differs(m, f):
        m += 1
        N += 1
        if float_count_differs(m, f):
            return {"labels": ["skipped"], "nontrivial": False}
    w = wh.expand(case["w"], N, n)
    rs = np.random.RandomState(case["w"]["seed"] % 1000)
    for _ in range(case["boost"]):
        # a change beyond everything in the window
        k = rs.randint(m, N)
        w[k:, rs.randint(0, n)] += rs.choice([2, 5, 20, -50, 1e5, -1e12]) * (np.max(np.abs(np.diff(w, axis=0))) + 2.0 ** -30)
    what = "ESE (%dx%d, window=%d, %s)" % (N, n, m, f)
    got = ese(w, m, f, case["default"])
    if np.any(got[:m] != 0):
        raise Violation("%s: not zero in the first window" % what)
    if not np.all(np.isfinite(got)) or np.any(got < -1e-12):
        raise Violation("%s: a value is %s" % (what, got[~np.isfinite(got) | (got < 0)][0]))
    for both in (False, True):
        val, lo, hi = reference(w, m, f, both)
        bad = (got < lo.sum(axis=1) - 1e-9) | (got > hi.sum(axis=1) + 1e-9)
        if not bad.any():
            break
    if bad.any():
        k = int(np.argwhere(bad)[0, 0])
        raise Violation("%s: sample %d is %.12g, the fitted distribution gives %.12g" % (what, k, got[k], val[k].sum()))
    rel = case["rel"]
    g2, cut = None, N
    wide = (hi - lo).sum(axis=1) + 1e-9
    if rel == "permute" and n > 1:
        g2 = ese(np.ascontiguousarray(w[:, rs.permutation(n)]), m, f)
    elif rel == "later" and N - m > 1:
        cut = m + 1 + int(case["at"] * (N - m - 1))
        w2 = w.copy()
        w2[cut:] = rs.normal(0, 7, (N - cut, n))
        g2 = ese(w2, m, f)
    elif rel == "negate":
        g2 = ese(-w, m, f)
    elif rel == "constant":
        c = np.round(rs.normal(0, 4, n)) * 2.0 ** case["w"]["sc"]
        if np.array_equal((w + c) - c, w) and np.array_equal(np.diff(w + c, axis=0), np.diff(w, axis=0)):
            g2 = ese(w + c, m, f)
    elif rel == "additive" and n > 1:
        g2 = sum(ese(w[:, j:j + 1], m, f) for j in range(n))
    if g2 is not None:
        bad = ~(np.abs(g2 - got) <= wide)
        bad[cut:] = False
        if bad.any():
            _, lo, hi = reference(w, m, f, True)
            bad &= ~(np.abs(g2 - got) <= (hi - lo).sum(axis=1) + 1e-9)
        if bad.any():
            k = int(np.argwhere(bad)[0, 0])
            raise Violation("%s: relation '%s': sample %d is %.12g and %.12g" % (what, rel, k, got[k], g2[k]))
    pos = int(np.sum(val > 0))
    return {"labels": ["f:" + f, "w:" + case["w"]["p"]] + (["rel:" + rel] if g2 is not None else [])
            + (["scored"] if pos else ["nothing scored"]) + (["F=1"] if np.any(got >= 19.9) else []),
            "nontrivial": pos > 0}
