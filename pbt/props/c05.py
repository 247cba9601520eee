"""C05: gradient filters change weights exactly by their published rule."""
import numpy as np
from hypothesis import strategies as st

from .. import common, hist, kinds, refs
from ..lib import LD, Violation

ID = "C05"
KIND = ["LMS", "NLMS", "LMF", "NLMF", "SSLMS", "NSSLMS", "GMCC", "Llncosh"]
TINY = ["LMS", "NLMS", "SSLMS", "NSSLMS", "Llncosh"]     # the others have powers of the error, which vanish
BUDGET = {"quick": 2750, "thorough": 12000}
RULE = ("case = (kind, size, options, initial weights, data, history of run/adapt/online calls); every weight "
        "increment is compared with the documented formula evaluated in extended precision for the observed error. "
        "Non-trivial: at least one non-zero increment compared")


def cases(tier):
    return cases_(tier)


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(KIND, hi=4000 if tier == "thorough" else 1500, stable=True))
    if "ds" in case["data"] and draw(st.integers(0, 15)) == 0 and case["cfg"]["kind"] in TINY:      # targets and errors near the end of the numbers
        case["data"]["ds"] = draw(st.sampled_from([1e-40, 1e-50, 1e-80, 1e-120]))
        case["data"].pop("do", None)
        case["cfg"]["w"] = "zeros"
    if case["cfg"]["kind"] == "Llncosh" and draw(st.integers(0, 19)) == 7:
        case["cfg"]["opts"]["lambd"] = draw(st.sampled_from([-1.0, -3, -0.1, 1e3, 0.0]))
    case["again"] = draw(st.one_of(st.none(), st.integers(0, 1000)))
    return case


def errors(x, d, R, m):
    """Observed errors (extended precision where they were not reported) and their uncertainty."""
    e = R.e[:m].astype(LD)
    w = R.w[:m].astype(LD)
    xx = x[:m].astype(LD)
    mag = np.sum(np.abs(w * xx), axis=1) + np.abs(d[:m])
    calc = d[:m].astype(LD) - np.sum(w * xx, axis=1)
    miss = np.isnan(R.e[:m])
    return np.where(miss, calc, e), np.where(miss, mag * 1e-15, LD(0)), miss


def once_more(k, c, x, d, opts, ops, W):
    """The same sample twice more with the weights set back between, after all the history: the same increments."""
    f = kinds.make(c, opts)
    hist.drive(f, ops, x, d)
    w = W[k].copy()
    incs = []
    for _ in range(3):
        f.w = w.copy()
        f.adapt(d[k], x[k].copy())
        incs.append(np.array(f.w) - w)
    ref = W[k + 1] - w
    for inc in incs[1:]:
        if not np.array_equal(inc, incs[0], equal_nan=True):
            raise Violation("%s: sample %d of %d, learned again with the same weights, moves them by %s after %s"
                            % (c["kind"], k, len(d), hist.short(inc), hist.short(incs[0])))
    mag = np.sum(np.abs(w * x[k])) + abs(d[k])
    e = d[k] - np.dot(w, x[k])
    if abs(e) < 1e-6 * mag:
        return          # (rounding of the error)
    tol = 1e-6 * np.abs(ref) + 1e-14 * np.maximum(np.abs(w), np.abs(W[k + 1])) + 1e-300
    if c["kind"] == "GMCC":
        return          # (the exponential amplifies rounding of a large error)
    if np.all(np.isfinite(ref)) and not np.all(np.abs(incs[0] - ref) <= tol):
        raise Violation("%s: sample %d of %d moved the weights by %s, and by %s when it was learned again later with the same "
                        "weights" % (c["kind"], k, len(d), hist.short(ref), hist.short(incs[0])))


def check(case):
    c, x, d, opts = hist.prepare(case)
    R = hist.drive(kinds.make(c, opts), case["ops"], x, d)
    W = np.vstack([R.w, R.end[None, :]])
    m = hist.finite_until(W) - 1
    if 0 <= m < len(d):
        e0 = d[m].astype(LD) - np.sum(W[m].astype(LD) * x[m])
        hist.broken(c["kind"], W, m, x, d, refs.Ref(c["kind"], c["n"], opts).inc(e0, x[m]))
    if m < 1:
        return {"labels": common.labels(case) + ["diverged at once"], "nontrivial": False}
    e, unc, miss = errors(x, d, R, m)
    ref = refs.Ref(c["kind"], c["n"], opts)
    moved = 0
    lab = common.labels(case)
    for k in range(m):
        inc = ref.inc(e[k], x[k])
        got = W[k + 1].astype(LD) - W[k].astype(LD)
        tol = 1e-10 * np.abs(inc) + 4.5e-16 * np.maximum(np.abs(W[k]), np.abs(W[k + 1])) + LD(1e-300)
        if unc[k]:
            if abs(e[k]) <= 2 * unc[k] and c["kind"] in ("SSLMS", "NSSLMS", "GMCC"):
                continue
            lo, hi = ref.inc(e[k] - unc[k], x[k]), ref.inc(e[k] + unc[k], x[k])
            tol = tol + 2 * np.abs(hi - lo)
        if not np.all(np.isfinite(inc)):
            break
        bad = ~(np.abs(got - inc) <= tol)
        if bad.any():
            raise Violation("%s: sample %d of %d (error %.17g, input %s): the weights move by %s, the rule says %s"
                            % (c["kind"], k, len(d), e[k], hist.short(x[k]), hist.short(got), hist.short(inc)))
        moved += bool(np.any(got != 0))
    if case.get("again") is not None and m > 1:
        once_more(case["again"] % (m - 1), c, x, d, opts, case["ops"], W)
    if np.any(e == 0):
        lab.append("zero error")
    if np.any(~x.any(axis=1)):
        lab.append("zero input")
    return {"labels": lab, "nontrivial": moved > 0}
