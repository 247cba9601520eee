"""C04: filtering is causal."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds
from ..lib import Violation

ID = "C04"
BUDGET = {"quick": 2500, "thorough": 10000}
RULE = ("case = a common earlier history, then one batch run over data A and one over data B by twin filters, where B "
        "equals A before the target of sample k and is changed (other data, scale, zeros, truncated) from there; "
        "outputs up to k, errors and weight rows before the change have to agree. Non-trivial: weights move before k")


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(hi=1500, modes=("run", "adapt")))
    N = case["N"]
    case["pre"] = draw(st.sampled_from([0, 0, 1, 0.5]))
    case["k"] = draw(st.integers(0, N))
    case["how"] = draw(st.sampled_from(["other", "cut", "target", "huge", "zeros", "scaled", "longer", "flip", "swap"]))
    case["seed2"] = draw(gen.SEEDS)
    case["nan"] = draw(st.sampled_from([None] * 6 + ["before", "both", "later"]))     # targets that are missing
    return case


def cases(tier):
    return cases_(tier)


def check(case):
    c, x, d, opts = hist.prepare(case)
    n, N = c["n"], len(d)
    pre = min(int(case["pre"] * 6) if case["pre"] else 0, N - 1)
    hx, hd, x, d = x[:pre], d[:pre], x[pre:], d[pre:]
    N -= pre
    k = min(case["k"], N)
    rs = np.random.RandomState(case["seed2"])
    x2, d2 = x.copy(), d.copy()
    how = case["how"]
    m = N - k
    s = float(np.max(np.abs(x))) or 1.0
    sd = float(np.max(np.abs(d))) or 1.0
    if how == "cut":
        x2, d2 = x2[:max(k, 1)], d2[:max(k, 1)]
        k = min(k, len(d2))
    elif how == "target":
        d2[k:] = d2[k:] + sd * (1 + rs.random_sample(m))
    elif how == "huge":
        d2[k:] = sd * 1e12 * (1 + rs.random_sample(m))
        x2[k + 1:] = s * 1e9 * (1 + rs.random_sample(x2[k + 1:].shape))
    elif how == "zeros":
        d2[k:] = 0
        x2[k + 1:] = 0
    elif how == "scaled":
        d2[k:] *= -3
        x2[k + 1:] *= 7
    elif how == "flip":
        d2[k:] *= -1
    elif how == "swap":
        d2[k:] = d2[k:][::-1]
        x2[k + 1:] = x2[k + 1:][::-1]
    else:
        extra = 0 if how == "other" else 7
        x2 = np.vstack([x2[:k + 1], s * rs.normal(0, 1, (max(m - 1, 0) + extra, n))])[:N + extra]
        d2 = np.concatenate([d2[:k], sd * rs.normal(0, 1, len(x2) - k)])

    if case["nan"] in ("before", "both") and k > 1:
        j = rs.randint(0, k)
        d[j] = d2[j] = np.nan
    if case["nan"] in ("both", "later") and len(d2) > k:
        d2[k:][rs.random_sample(len(d2) - k) < 0.5] = np.nan
        d2[-1] = np.nan

    def go(xx, dd):
        f = kinds.make(c, opts)
        if pre:
            hist.drive(f, [["run", pre]], hx, hd)
        return hist.drive(f, [["run", len(dd)]], xx, dd)

    if c["kind"] == "AP" and how in ("huge", "scaled", "other", "longer"):
        x2[k + 1:] = np.clip(x2[k + 1:], -s, s)
    A, B = go(x, d), go(x2, d2)
    xp, dp = hist.perturbed(c, x, d)
    P = go(xp, dp)
    wt, H = hist.tolerance(A, P)
    L = min(len(A.y), len(B.y))

    def head(R):
        r = hist.Rec(0, n)
        r.y, r.e, r.w = R.y[:min(k + 1, L)].copy(), R.e[:min(k + 1, L)].copy(), R.w[:min(k + 1, L)].copy()
        if len(r.e) > k:
            r.e[k:] = np.nan           # the error of sample k follows its own target
        r.end = R.w[k + 1] * 0 if False else (r.w[-1] if len(r.w) else R.end * 0)
        if len(r.w) == k and k == L:
            r.end = R.end if len(R.y) == k else R.w[k]
        return r

    a, b = head(A), head(B)
    q = len(a.y)
    for u, v, name in ((a.y, b.y, "outputs"), (a.w, b.w, "weights"), (a.e[:k], b.e[:k], "errors")) if case["nan"] else ():
        g = np.isnan(u) != np.isnan(v)
        if g.any() and max(np.max(np.abs(r[np.isfinite(r)]), initial=0) for r in (u, v)) < 1e60:
            raise Violation("%s on data with missing targets: which %s before sample %d are numbers depends on what comes "
                            "from there on" % (c["kind"], name, k))
    tie = hist.tie_horizon(c, opts, x[:q], d[:q], a, b)
    hist.same(a, b, x[:q], d[:q], wt, min(H, tie + 1, len(wt)),
              "%s on data that differ from the target of sample %d on (%s)" % (c["kind"], k, how))
    moved = len(a.w) > 1 and bool(np.any(a.w[1:] != a.w[:1]))
    return {"labels": common.labels(case) + ["how:" + how], "nontrivial": moved}
