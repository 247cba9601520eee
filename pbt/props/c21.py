"""C21: ELBND is the aggregated product of error and weight increment."""
import numpy as np
from hypothesis import strategies as st

from .. import wh
from ..lib import Violation, pa

ID = "C21"
BUDGET = {"quick": 3750, "thorough": 20000}
RULE = ("case = (weight history, error series, aggregation, relation): every value against the formula, and against "
        "the result of a related call (scaled errors or weights, other signs, permuted or shifted weights, the other "
        "aggregation, unknown aggregations). Non-trivial: at least one non-zero value and more than one weight")
RELS = ["homogeneous e", "homogeneous w", "sign of e", "permute", "constant", "other", "unknown", "negate w"]


@st.composite
def cases_(draw, tier):
    N, n = wh.shape(draw, hi=4000)
    return {"N": N, "n": n, "w": draw(wh.spec()), "f": draw(st.sampled_from(["max", "sum", "omitted"])),
            "e": draw(st.sampled_from(["gauss", "ints", "sparse", "const", "heavy", "negative", "zero"])),
            "es": draw(st.sampled_from([0, 0, 0, 5, -7, -30, 25])),
            "as": draw(st.sampled_from(["array", "array", "int", "fortran", "view"])),
            "eas": draw(st.sampled_from(["array", "array", "array", "list", "int", "view"])),
            "rel": draw(st.sampled_from(RELS)), "by": draw(st.sampled_from([2.0, 0.25, -4.0, 1024.0])),
            "bad": draw(st.sampled_from(["mean", "", "MAX", "maximum", None, "min", "abs", "max ", 1]))}


def cases(tier):
    return cases_(tier)


def errors(case):
    rs = np.random.RandomState((case["w"]["seed"] + 3) % 2 ** 31)
    N = case["N"]
    g = rs.normal(0, 1, N)
    e = {"gauss": g, "ints": rs.randint(-5, 6, N).astype(float), "sparse": g * (rs.random_sample(N) < 0.2),
         "const": np.full(N, -2.0), "heavy": np.clip(rs.standard_t(1, N), -1e5, 1e5), "negative": -np.abs(g),
         "zero": np.zeros(N)}[case["e"]]
    return e * 2.0 ** case["es"]


def elbnd(w, e, f):
    r = pa.detection.ELBND(w, e) if f == "omitted" else pa.detection.ELBND(w, e, function=f)
    r = np.asarray(r)
    if r.shape != (len(w),):
        raise Violation("ELBND of a history %s has the shape %s" % (w.shape, r.shape))
    return r.astype(float)


def formula(w, e, f):
    N, n = w.shape
    P = np.zeros((N, n))
    for k in range(N - 1):
        P[k] = np.abs(w[k + 1] - w[k]) * abs(e[k])
    return np.sum(P, axis=1) if f == "sum" else np.max(P, axis=1)


def same(a, b, what, tol=1e-12, extra=0.0):
    bad = ~(np.abs(a - b) <= tol * np.abs(b) + 1e-300 + extra)
    if bad.any():
        k = int(np.argwhere(bad)[0, 0])
        raise Violation("%s: sample %d of %d is %.17g instead of %.17g" % (what, k, len(a), a[k], b[k]))


def check(case):
    w = wh.expand(case["w"], case["N"], case["n"])
    e = errors(case)
    f = case["f"]
    ea = {"list": e.tolist(), "view": np.repeat(e, 2)[::2]}.get(case["eas"], e)
    if case["eas"] == "int" and np.array_equal(e, np.round(e)) and np.max(np.abs(e)) < 2 ** 20:
        ea = e.astype(np.int64)
    wa = wh.given_as(w, case["as"])
    if wa.dtype.kind == "i" and np.max(np.abs(w)) > 2 ** 20:
        wa = w
    got = elbnd(wa, ea, f)
    what = "ELBND (%dx%d, %s)" % (case["N"], case["n"], f)
    if not np.all(got >= 0):
        raise Violation("%s: not every value is non-negative" % what)
    same(got, formula(w, e, f), what)
    rs = np.random.RandomState(case["w"]["seed"] % 1000)
    rel, by = case["rel"], case["by"]
    if rel == "homogeneous e":
        same(elbnd(w, e * by, f), got * abs(by), what + " with the error scaled by %g" % by)
    elif rel == "homogeneous w":
        same(elbnd(w * by, e, f), got * abs(by), what + " with the weights scaled by %g" % by)
    elif rel == "sign of e":
        same(elbnd(w, e * rs.choice([-1, 1], len(e)), f), got, what + " with other signs of the error")
    elif rel == "negate w":
        same(elbnd(-w, e, f), got, what + " with negated weights")
    elif rel == "permute":
        same(elbnd(np.ascontiguousarray(w[:, rs.permutation(case["n"])]), e, f), got, what + " with permuted weights")
    elif rel == "constant":
        c = np.round(rs.normal(0, 4, case["n"])) * 2.0 ** case["w"]["sc"]
        r = 1e-15 * case["n"] * (np.max(np.abs(w)) + np.max(np.abs(c)))
        same(elbnd(w + c, e, f), got, what + " with constants added to the weights", extra=r * np.abs(e))
    elif rel == "other":
        if np.any(elbnd(w, e, "max") > elbnd(w, e, "sum") * (1 + 1e-12)):
            raise Violation("%s: the maximum exceeds the sum" % what)
    else:
        try:
            pa.detection.ELBND(w, e, function=case["bad"])
        except ValueError:
            pass
        except Exception as exc:
            raise Violation("ELBND with the unknown function %r raises %s instead of a ValueError"
                            % (case["bad"], type(exc).__name__))
        else:
            raise Violation("ELBND accepts the unknown function %r" % (case["bad"],))
    return {"labels": ["f:" + f, "e:" + case["e"], "w:" + case["w"]["p"], "rel:" + rel]
            + (["one row"] if case["N"] == 1 else []) + (["one weight"] if case["n"] == 1 else []),
            "nontrivial": case["n"] > 1 and bool(np.any(got > 0))}
