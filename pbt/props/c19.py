"""C19: direct Learning Entropy is the standardised size of each weight increment."""
import numpy as np
from hypothesis import strategies as st

from .. import wh
from ..lib import Violation, pa
from ..runner import known_findings

ID = "C19"
BUDGET = {"quick": 2250, "thorough": 12000}
RULE = ("case = (weight history, window m, order, representation, relation): the returned array against the formula "
        "computed with explicit loops, and against the result for a related history (constant added, later samples "
        "replaced, other weights replaced, columns permuted). Non-trivial: at least one sample k >= m + order with a "
        "non-zero increment in its window")
FID = "C19-first-rows"
RELATIONS = ["none", "constant", "later", "other weights", "permute", "scale", "negate"]


@st.composite
def cases_(draw, tier):
    N, n = wh.shape(draw, hi=3000 if tier == "thorough" else 1200)
    return {"N": N, "n": n, "m": wh.window(draw, N), "order": draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4, 7, 5, 6, 1, 2, 3, 9, 12])),
            "w": draw(wh.spec()), "as": draw(st.sampled_from(["array", "array", "list", "int", "fortran", "view"])),
            "rel": draw(st.sampled_from(RELATIONS)), "at": draw(st.floats(0, 1)),
            "alpha": draw(st.sampled_from(["omitted", "omitted", "False", "None"]))}


def cases(tier):
    return cases_(tier)


def le(w, case, how="array"):
    kw = {"omitted": {}, "False": {"alpha": False}, "None": {"alpha": None}}[case["alpha"]]
    r = pa.detection.learning_entropy(wh.given_as(w, how), m=case["m"], order=case["order"], **kw)
    r = np.asarray(r)
    if r.shape != w.shape:
        raise Violation("direct LE of a history %s has the shape %s" % (w.shape, r.shape))
    return r.astype(float)


def formula(w, m, order):
    """Values of rows >= m + order, tolerances of them."""
    D, T = wh.differences(w, order)
    L, tol = np.zeros(w.shape), np.zeros(w.shape)
    for k in range(m + order, len(w)):
        win = D[k - m:k]
        mean = np.sum(win, axis=0) / m
        std = np.sqrt(np.sum((win - mean) ** 2, axis=0) / m)
        t = np.max(T[k - m:k + 1], axis=0) + 4e-16 * (m + 8) * np.maximum(np.max(win, axis=0), D[k])
        L[k] = (D[k] - mean) / (std + 1e-10)
        low = np.maximum(std - t, 0) + 1e-10
        tol[k] = 4 * t / low + 2 * np.abs(L[k]) * t / low + 1e-9 * np.abs(L[k])
    return L, tol


def as_built(w, m, order):
    """What happens with the first rows: weights themselves (with their sign) stand in for increments."""
    D = np.array(w)
    if order < len(w):
        D[order:] = np.abs(np.diff(w, n=order, axis=0))
    out = np.zeros(w.shape)
    for k in range(m, min(len(w), m + order)):
        out[k] = (D[k] - np.mean(D[k - m:k], axis=0)) / (np.std(D[k - m:k], axis=0) + 1e-10)
    return out


def sane(w, m, order):
    """Readings of the first rows that would be fine: missing increments are zero, or left out, or nothing is given."""
    D = np.zeros(w.shape)
    if order < len(w):
        D[order:] = np.abs(np.diff(w, n=order, axis=0))
    zero, short = np.zeros(w.shape), np.zeros(w.shape)
    for k in range(m, min(len(w), m + order)):
        zero[k] = (D[k] - np.mean(D[k - m:k], axis=0)) / (np.std(D[k - m:k], axis=0) + 1e-10)
        win = D[max(order, k - m):k]
        if len(win) and k >= order:
            short[k] = (D[k] - np.mean(win, axis=0)) / (np.std(win, axis=0) + 1e-10)
    return [zero, short, np.zeros(w.shape)]


def close(a, b):
    return np.allclose(a, b, rtol=1e-6, atol=1e-9) if a.size else True


def check(case):
    N, n, m, o = case["N"], case["n"], case["m"], case["order"]
    w = wh.expand(case["w"], N, n)
    got = le(w, case, case["as"])
    want, tol = formula(w, m, o)
    what = "direct LE (%dx%d, m=%d, order=%d)" % (N, n, m, o)
    if np.any(got[:m] != 0):
        raise Violation("%s: not zero in the first m samples" % what)
    s = m + o
    bad = ~(np.abs(got[s:] - want[s:]) <= tol[s:])
    if bad.any():
        k, i = np.argwhere(bad)[0]
        raise Violation("%s: weight %d at sample %d has %.17g, the standardised increment is %.17g"
                        % (what, i, k + s, got[k + s, i], want[k + s, i]))
    lab = ["order:%d" % o, "w:" + case["w"]["p"], "as:" + case["as"]]
    lab.append("m>=N" if m >= N else "no strict rows" if s >= N else "strict rows")
    known = []
    first = slice(m, min(N, s))
    if got[first].size:
        if any(close(got[first], r[first]) for r in sane(w, m, o)):
            pass
        elif close(got[first], as_built(w, m, o)[first]):
            if FID not in {k["id"] for k in known_findings()}:
                raise Violation("%s: samples %d..%d use the weights themselves for increments" % (what, m, s - 1))
            known.append(FID)
        else:
            # standard deviations of rounding noise may differ
            if not fuzzy_first(got, w, m, o):
                raise Violation("%s: samples %d..%d are neither the standardised increments nor the listed finding"
                                % (what, m, s - 1))
            known.append(FID)
    rel = case["rel"]
    if s < N and rel != "none":
        lab.append("rel:" + rel)
        relation(case, w, got, tol, what)
    return {"labels": lab, "known": known,
            "nontrivial": s < N and bool(np.any(np.diff(w[:], axis=0) != 0))}


def fuzzy_first(got, w, m, o):
    D = np.array(w)
    D[o:] = np.abs(np.diff(w, n=o, axis=0)) if o < len(w) else D[o:]
    for k in range(m, min(len(w), m + o)):
        win = D[k - m:k]
        t = 1e-15 * (m + 8) * 2.0 ** o * np.max(np.abs(w[:k + 1]), axis=0)
        std = np.std(win, axis=0)
        L = (D[k] - np.mean(win, axis=0)) / (std + 1e-10)
        low = np.maximum(std - t, 0) + 1e-10
        if not np.all(np.abs(got[k] - L) <= 4 * t / low + 2 * np.abs(L) * t / low + 1e-9 * np.abs(L)):
            return False
    return True


def relation(case, w, got, tol, what):
    N, n, m, o = case["N"], case["n"], case["m"], case["order"]
    s = m + o
    rel = case["rel"]
    cut = N
    rs = np.random.RandomState(case["w"]["seed"] % 1000)
    cols = np.arange(n)
    if rel == "constant":
        w2 = w + np.round(rs.normal(0, 4, n)) * 2.0 ** case["w"]["sc"]
    elif rel == "later":
        cut = s + int(case["at"] * (N - s))
        w2 = w.copy()
        w2[cut:] = rs.normal(0, 5, (N - cut, n))
    elif rel == "other weights":
        keep = int(case["at"] * (n - 1))
        w2 = rs.normal(0, 3, (N, n))
        w2[:, keep] = w[:, keep]
        cols = np.array([keep])
    elif rel == "permute":
        w2 = None
        p = rs.permutation(n)
        g2, t2 = le(w[:, p], case), tol[:, p]
        compare(got[:, p], g2, t2, t2, s, N, np.arange(n), what, "permuting the weights")
        return
    elif rel == "negate":
        w2 = -w
    else:
        w2 = w * 2.0
        # std + eps: scaling changes the result only through eps; compare with the formula of the scaled history
    g2 = le(w2, case)
    want2, tol2 = formula(w2, m, o)
    if rel == "scale":
        compare(want2, g2, tol2, tol2, s, N, cols, what, "scaling the history by 2")
        return
    compare(got, g2, tol, tol2, s, cut, cols, what, {"constant": "adding constants to the weights",
                                                    "later": "changing later samples",
                                                    "other weights": "changing the other weights",
                                                    "negate": "negating the history"}[rel])


def compare(a, b, ta, tb, s, e, cols, what, by):
    bad = ~(np.abs(a[s:e, cols] - b[s:e, cols]) <= (ta + tb)[s:e, cols])
    if bad.any():
        k, i = np.argwhere(bad)[0]
        raise Violation("%s: %s changes weight %d at sample %d from %.17g to %.17g"
                        % (what, by, cols[i], k + s, a[k + s, cols[i]], b[k + s, cols[i]]))


def reproduces(fid):
    w = np.cumsum(np.ones((20, 2)), axis=0) + 100
    w[::3] += 0.5
    r = np.asarray(pa.detection.learning_entropy(w, m=4, order=1))
    return close(r[4:5], as_built(w, 4, 1)[4:5]) and not any(close(r[4:5], q[4:5]) for q in sane(w, 4, 1))
