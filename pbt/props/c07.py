"""C07: RLS solves exponentially weighted least squares."""
import numpy as np
from hypothesis import strategies as st

from .. import common, hist, kinds, refs
from ..lib import LD, Violation

ID = "C07"
BUDGET = {"quick": 880, "thorough": 5000}
RULE = ("case = (size, mu, eps, initial weights, data, history of run/adapt/online calls) of an RLS filter; after every "
        "sample the weights are compared with the solution of the weighted normal equations over all samples so far, "
        "solved in extended precision, within a tolerance measured by a double precision RLS of our own. "
        "Non-trivial: at least 3 samples compared with moving weights")


@st.composite
def cases_(draw, tier):
    hi = 1500 if tier == "thorough" else 500
    if draw(st.integers(0, 9)) < 4:
        return draw(common.hist_case(["RLS"], typical=30, hi=hi, nhi=6))
    if draw(st.integers(0, 11)) == 0:       # short memories, weak inputs
        case = draw(common.hist_case(["RLS"], typical=6, hi=12, nhi=3, rare=0))
        case["cfg"]["opts"].update(mu=draw(st.sampled_from([1e-3, 1e-2, 1e-6, 0.05])))
        if "xs" in case["data"]:
            case["data"]["xs"] = draw(st.sampled_from([1e-3, 1e-2, 0.1, 1e-5]))
            case["data"].pop("xo", None)
        return case
    # data and options for which the comparison stays sharp over long histories
    case = draw(common.hist_case(["RLS"], typical=60, hi=hi, nhi=5,
                                 data_kw={"scales": False, "xpats": ["gauss", "ints", "hist", "sine", "binary", "sparse",
                                                                     "bursts", "dupcols"]}))
    case["cfg"]["opts"].update(mu=draw(st.sampled_from([0.99, 1.0, 0.95, 0.98, 0.9, 0.999])),
                               eps=draw(st.sampled_from([0.1, 1.0, 0.5, 0.01, 10.0])))
    if isinstance(case["cfg"]["w"], dict):
        case["cfg"]["w"]["s"] = 1.0
    return case


def cases(tier):
    return cases_(tier)


def check(case):
    c, x, d, opts = hist.prepare(case)
    n = c["n"]
    mu, eps = float(opts.get("mu", 0.1)), float(opts.get("eps", 0.001))
    f = kinds.make(c, opts)
    w0 = np.array(f.w, dtype=float)
    R = hist.drive(f, case["ops"], x, d)
    W = np.vstack([R.w, R.end[None, :]])
    if not np.array_equal(W[0], w0):
        raise Violation("the first weights %s are not the initial ones %s" % (hist.short(W[0]), hist.short(w0)))
    # information form, extended precision
    A = LD(eps) * np.eye(n, dtype=LD)
    b = A @ w0.astype(LD)
    # own conventional recursion in double precision: what rounding does to it
    Rm = np.eye(n) / eps
    w64 = w0.copy()
    done, moved, floor, cond, top = 0, False, LD(0), 1.0, 0.0
    for k in range(len(d)):
        xk = x[k].astype(LD)
        A = LD(mu) * A + np.outer(xk, xk)
        b = LD(mu) * b + LD(d[k]) * xk
        sol = refs.ld_solve(A, b)
        rn, xn = np.max(np.abs(Rm)), np.max(np.abs(x[k]))
        before = (rn + n * (rn * xn) ** 2 / max(mu, mu + x[k] @ Rm @ x[k])) / mu
        g = Rm @ x[k] / (mu + x[k] @ Rm @ x[k])
        e = d[k] - w64 @ x[k]
        Rm = (Rm - np.outer(g, x[k] @ Rm)) / mu
        w64 = w64 + g * e
        top = max(top, np.max(np.abs(Rm)) * xn * abs(e))
        if sol is None or not np.all(np.isfinite(A)) or not np.all(np.isfinite(sol)) or not np.all(np.isfinite(w64)):
            break
        sc = max(np.max(np.abs(sol)), np.max(np.abs(W[:k + 2])), np.max(np.abs(w64)))
        floor = max(floor, np.max(np.abs(w64 - sol)))
        # error of the covariance itself, relative to its inverse: an early sign of what is to come
        dev = np.max(np.abs(Rm.astype(LD) @ A - np.eye(n)))
        # the update subtracts products of the size of the last covariance: what rounding may do to the new one
        cond = max(cond, np.linalg.cond(A.astype(float)), before * n * float(np.max(np.abs(A))))
        tol = 1e3 * floor + (1e-9 + 10 * dev) * sc + 1e-14 * cond * max(sc, top) + LD(1e-280)
        if not tol <= 1e-3 * sc + LD(2e-280) or sc > 1e100 or not cond < 1e10:
            break
        if not np.all(np.abs(W[k + 1] - sol) <= tol):
            raise Violation("after sample %d of %d the weights are %s, the weighted least squares solution is %s"
                            % (k, len(d), hist.short(W[k + 1]), hist.short(sol)))
        done += 1
        moved = moved or bool(np.any(W[k + 1] != W[k]))
    lab = common.labels(case) + ["compared:" + ("0" if done == 0 else "1-2" if done < 3 else "3-9" if done < 10
                                                else "10-99" if done < 100 else "100+")]
    if done < len(d):
        lab.append("conditioning horizon")
    return {"labels": lab, "nontrivial": moved and done >= 3}
