"""C08: affine projection uses the last `order` samples of the whole history."""
import numpy as np
from hypothesis import strategies as st

from .. import common, hist, kinds
from ..lib import Violation

ID = "C08"
BUDGET = {"quick": 1250, "thorough": 6000}
RULE = ("case = (size, mu, order, ifc, initial weights, data, history of run/adapt/online calls) of an AP filter; every "
        "increment is compared with the projection formula, evaluated through a singular value decomposition from the "
        "last `order` samples of the whole history; orders of 1 are also compared with an NLMS filter. Non-trivial: at "
        "least one non-zero increment compared after the second sample")


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(["AP"], typical=24, hi=1500 if tier == "thorough" else 400))
    if draw(st.integers(0, 5)) == 0:
        case["cfg"]["opts"]["order"] = 1
    if draw(st.integers(0, 7)) == 0:
        case["cfg"]["opts"]["order"] = case["N"] + draw(st.integers(-1, 2)) if case["N"] < 20 else 3
        case["cfg"]["opts"]["order"] = max(1, case["cfg"]["opts"]["order"])
    return case


def cases(tier):
    return cases_(tier)


def check(case):
    c, x, d, opts = hist.prepare(case)
    n, N = c["n"], len(d)
    o = dict(kinds.DEFAULTS["AP"], **opts)
    order, mu, ifc = o["order"], o["mu"], o["ifc"]
    R = hist.drive(kinds.make(c, opts), case["ops"], x, d)
    W = np.vstack([R.w, R.end[None, :]])
    m = hist.finite_until(W) - 1
    moved = 0
    for k in range(m):
        lo = max(0, k - order + 1)
        X = np.zeros((n, order))
        D = np.zeros(order)
        X[:, :k - lo + 1] = x[lo:k + 1][::-1].T
        D[:k - lo + 1] = d[lo:k + 1][::-1]
        err = D - X.T @ W[k]
        mag = np.abs(D) + np.abs(X.T) @ np.abs(W[k])
        U, s, V = np.linalg.svd(X, full_matrices=False)
        inc = mu * U @ ((s / (s * s + ifc)) * (V @ err))
        smin = 0.0 if n < order else s[-1]
        kappa = (s[0] ** 2 + ifc) / (smin ** 2 + ifc)
        # the explicit inverse loses up to the condition number
        tol = 1e-10 * np.max(np.abs(inc)) + 4.5e-16 * np.max(np.abs(W[k:k + 2])) \
            + 1e-14 * order * (1 + kappa) * abs(mu) * s[0] / (smin ** 2 + ifc) * np.max(mag) + 1e-300
        got = W[k + 1] - W[k]
        if not np.all(np.abs(got - inc) <= tol):
            raise Violation("sample %d of %d (order %d): the weights move by %s, the projection on the last %d samples "
                            "is %s" % (k, N, order, hist.short(got), min(k + 1, order), hist.short(inc)))
        moved += k > 0 and tol < 1e-3 * np.max(np.abs(inc)) and bool(np.any(got != 0))
    lab = common.labels(case) + ["order:" + ("1" if order == 1 else "<=n" if order <= n else ">n")]
    if order > N:
        lab.append("order > N")
    if order == 1 and m >= 1:
        c2 = dict(c, kind="NLMS")
        opts2 = {"mu": mu, "eps": ifc}
        B = hist.drive(kinds.make(c2, opts2), case["ops"], x, d)
        xp, dp = hist.perturbed(c, x, d)
        P = hist.drive(kinds.make(c, opts), case["ops"], xp, dp)
        wt, H = hist.tolerance(R, P, base=1e-8)
        hist.same(R, B, x, d, wt, H, "AP of order 1 and NLMS", base=1e-8)
        lab.append("compared with NLMS")
    return {"labels": lab, "nontrivial": moved > 0}
