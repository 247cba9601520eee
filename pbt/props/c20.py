"""C20: multiscale Learning Entropy counts exceeded sensitivities."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import gen, mine, wh
from ..lib import Violation, pa
from ..runner import known_findings

ID = "C20"
BUDGET = {"quick": 1400, "thorough": 12000}
RULE = ("case = (weight history, window m, order, sensitivities, their container, relation): the returned values "
        "against counting the exceeded pairs (ties decided where all numbers involved are exact), against [0, 1] and "
        "against the result of a related call. Non-trivial: some value strictly between 0 and 1, or an exact tie")
FID = "C20-first-rows"
MAGS = [1e-6, 1e-3, 30.0, 100.0, 1e3, 1e4, 1e5, 1e8] + [v for v in mine.magnitudes("detection") if v < 1e9]
RELATIONS = ["none", "constant", "permute weights", "permute sensitivities", "raise", "scale", "later"]


@st.composite
def cases_(draw, tier):
    N, n = wh.shape(draw, hi=3000 if tier == "thorough" else 1200)
    alpha = draw(st.lists(st.one_of(st.sampled_from([1.0, 2.0, 0.5, 1.5, 3.0, 8.0, 0.0, 4.0]),
                                    st.floats(0.01, 12), st.integers(1, 14),
                                    st.sampled_from(MAGS)), min_size=1, max_size=6))
    if draw(st.integers(0, 14)) == 0:
        alpha = (alpha * 12)[:gen.tail(draw, 7, 30, 60, "detection")]
        alpha = [a * (1 + i / 16.0) for i, a in enumerate(alpha)]
    elif draw(st.integers(0, 19)) == 11:         # many sensitivities, in no order
        k = draw(st.sampled_from([20, 33, 50, 65, 100, 101, 129, 200, 256, 257] + mine.sizes("detection", 7, 400)))
        alpha = np.round(np.random.RandomState(draw(gen.SEEDS)).lognormal(0.5, 1.2, k), 3).tolist()
    if len(alpha) > 30:
        N = min(N, 40)
        n = min(n, 4)
    return {"N": N, "n": n, "m": wh.window(draw, N), "order": draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4, 7, 5, 6, 1, 2, 3, 9, 12])),
            "w": draw(wh.spec()), "as": draw(st.sampled_from(["array", "array", "list", "int", "fortran", "view"])),
            "alpha": alpha, "box": draw(st.sampled_from(["list", "tuple", "array", "array", "int"])),
            "rel": draw(st.sampled_from(RELATIONS)), "at": draw(st.floats(0, 1)), "by": draw(st.integers(-6, 6)),
            "up": draw(st.floats(0, 3))}


def cases(tier):
    return cases_(tier)


def boxed(alpha, how):
    if how == "array":
        return np.array(alpha, dtype=float)
    if how == "int" and all(float(a).is_integer() for a in alpha):
        return np.array([int(a) for a in alpha])
    return tuple(alpha) if how == "tuple" else list(alpha)


def le(w, case, alpha, how="array"):
    r = pa.detection.learning_entropy(wh.given_as(w, how), m=case["m"], order=case["order"],
                                      alpha=boxed(alpha, case["box"]))
    r = np.asarray(r)
    if r.shape != (len(w),):
        raise Violation("multiscale LE of a history %s has the shape %s" % (w.shape, r.shape))
    return r.astype(float)


def counts(D, T, rows, m, alpha, exact):
    """Least and largest fraction that each of the rows may have; how many ties were decided exactly.

    D: increments, T: bounds of their rounding errors.
    """
    N, n = D.shape
    lo, hi = np.zeros(N), np.zeros(N)
    ties = 0
    al = np.array(alpha)[:, None]
    for k in rows:
        win = D[k - m:k]
        mean = np.sum(win, axis=0) / m
        t = np.max(T[k - m:k + 1], axis=0) + 4e-16 * (m + 4) * np.maximum(np.max(np.abs(win), axis=0), np.abs(D[k]))
        gap = D[k] - al * mean
        tol = t * (1 + np.abs(al)) * 2 + 1e-300
        sure, maybe = gap > tol, gap >= -tol
        und = maybe & ~sure
        if exact and len(alpha) <= 30 and und.any():
            for j, i in np.argwhere(und):
                s = sum(Fraction(v) for v in win[:, i])
                a = alpha[j]
                if Fraction(float(s / m)) == s / m and Fraction(float(a) * float(s / m)) == Fraction(a) * s / m:
                    sure[j, i] = maybe[j, i] = Fraction(D[k, i]) > Fraction(a) * s / m
                    ties += 1
        lo[k] = np.mean(sure)
        hi[k] = np.mean(maybe)
    return lo, hi, ties


def strict(w, m, order, alpha, exact):
    D, T = wh.differences(w, order)
    return counts(D, T, range(m + order, len(w)), m, alpha, exact)


def first_fits(got, w, m, order, alpha, exact, raw):
    """Whether the rows m .. m+order-1 follow from zero (or: from the raw weights) in place of the missing increments."""
    D = np.array(w) if raw else np.zeros(w.shape)
    if order < len(w):
        D[order:] = np.abs(np.diff(w, n=order, axis=0))
    T = np.maximum.accumulate(np.abs(w), axis=0) * 2.0 ** order * order * 2.3e-16
    rows = range(m, min(len(w), m + order))
    lo, hi, _ = counts(D, T, rows, m, alpha, exact)
    r = slice(rows.start, rows.stop)
    return bool(np.all((got[r] >= lo[r] - 1e-9) & (got[r] <= hi[r] + 1e-9)))


def first_short(w, m, order, alpha):
    out = np.zeros(len(w))
    D = np.zeros(w.shape)
    if order < len(w):
        D[order:] = np.abs(np.diff(w, n=order, axis=0))
    for k in range(m, min(len(w), m + order)):
        win = D[max(order, k - m):k]
        if len(win) and k >= order:
            out[k] = np.mean([D[k] > a * np.mean(win, axis=0) for a in alpha])
    return out


def check(case):
    N, n, m, o = case["N"], case["n"], case["m"], case["order"]
    alpha = [float(a) for a in case["alpha"]]
    w = wh.expand(case["w"], N, n)
    exact = case["w"]["p"] in wh.EXACT and bool(np.all(w == np.round(w * 2.0 ** 12) / 2.0 ** 12)) and \
        np.max(np.abs(w)) < 2 ** 30
    got = le(w, case, case["alpha"], case["as"])
    what = "multiscale LE (%dx%d, m=%d, order=%d, sensitivities %s as %s)" % (N, n, m, o, alpha, case["box"])
    if np.any(got[:m] != 0):
        raise Violation("%s: not zero in the first m samples" % what)
    if not np.all((got >= 0) & (got <= 1 + 1e-12)):
        raise Violation("%s: values outside [0, 1]: %s" % (what, got[(got < 0) | ~(got <= 1)][:3]))
    lo, hi, ties = strict(w, m, o, alpha, exact)
    s = m + o
    bad = (got[s:] < lo[s:] - 1e-9) | (got[s:] > hi[s:] + 1e-9)
    if bad.any():
        k = np.argwhere(bad)[0, 0] + s
        raise Violation("%s: sample %d has %.12g, counting gives %.12g" % (what, k, got[k], lo[k]))
    lab = ["order:%d" % o, "w:" + case["w"]["p"], "alpha as " + case["box"]] + (["exact ties"] if ties else [])
    lab.append("m>=N" if m >= N else "no strict rows" if s >= N else "strict rows")
    known = []
    first = slice(m, min(N, s))
    if got[first].size:
        if (first_fits(got, w, m, o, alpha, exact, False) or not np.any(got[first])
                or np.allclose(got[first], first_short(w, m, o, alpha)[first], atol=1e-9)):
            pass
        elif first_fits(got, w, m, o, alpha, exact, True):
            if FID not in {k["id"] for k in known_findings()}:
                raise Violation("%s: samples %d..%d use the weights themselves for increments" % (what, m, s - 1))
            known.append(FID)
        else:
            raise Violation("%s: samples %d..%d are neither a count of exceeded sensitivities nor the listed finding"
                            % (what, m, s - 1))
    if s < N and case["rel"] != "none":
        lab.append("rel:" + case["rel"])
        relation(case, w, got, exact, what, alpha)
    return {"labels": lab, "known": known, "nontrivial": bool(ties) or bool(np.any((got[s:] > 0) & (got[s:] < 1)))}


def relation(case, w, got, exact, what, alpha):
    N, n, m, o = case["N"], case["n"], case["m"], case["order"]
    s, e = m + o, N
    rs = np.random.RandomState(case["w"]["seed"] % 1000)
    a2, w2 = list(case["alpha"]), w
    rel = case["rel"]
    if rel == "constant":
        w2 = w + np.round(rs.normal(0, 4, n)) * 2.0 ** case["w"]["sc"]
    elif rel == "permute weights":
        w2 = w[:, rs.permutation(n)]
    elif rel == "permute sensitivities":
        a2 = [a2[i] for i in rs.permutation(len(a2))]
    elif rel == "scale":
        w2 = w * 2.0 ** case["by"]
    elif rel == "later":
        e = s + int(case["at"] * (N - s))
        w2 = w.copy()
        w2[e:] = rs.normal(0, 5, (N - e, n))
    else:
        a2 = [float(a) + case["up"] * (i % 2 + 0.5) for i, a in enumerate(alpha)]
    g2 = le(w2, case, a2)
    if rel == "raise":
        bad = g2[s:] > got[s:] + 1e-9
        if bad.any():
            k = np.argwhere(bad)[0, 0] + s
            raise Violation("%s: raising the sensitivities to %s raises sample %d from %.12g to %.12g"
                            % (what, a2, k, got[k], g2[k]))
        return
    # rows in which nothing is undecided must agree exactly
    lo, hi, _ = strict(w, m, o, alpha, exact)
    lo2, hi2, _ = strict(w2, m, o, [float(a) for a in a2], exact and rel != "later")
    sure = (lo == hi) & (np.abs(lo2 - hi2) < 1e-12)
    bad = (np.abs(g2 - got) > 1e-9) & sure
    bad[:s] = bad[e:] = False
    if bad.any():
        k = np.argwhere(bad)[0, 0]
        raise Violation("%s: %s changes sample %d from %.12g to %.12g" % (what, rel, k, got[k], g2[k]))


def reproduces(fid):
    w = np.zeros((20, 2)) + 100.0
    w[::3] += 0.5
    w[4:] += 1
    a = [0.5, 1.0]
    r = np.asarray(pa.detection.learning_entropy(w, m=4, order=1, alpha=a))
    return (first_fits(r, w, 4, 1, a, True, True) and not first_fits(r, w, 4, 1, a, True, False)
            and not np.allclose(r[4:5], first_short(w, 4, 1, a)[4:5]))
