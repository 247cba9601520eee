"""C26: LDA yields real discriminants and directions that best separate the classes."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, mats
from ..lib import Violation, pa

ID = "C26"
BUDGET = {"quick": 1000, "thorough": 15000}
RULE = ("case = (dataset, labels and their names and container, requested columns, order of samples): discriminants "
        "against scipy.linalg.eigh(Sb, Sw) of scatter matrices computed here, the reduced data as a projection on unit "
        "vectors that solve the eigenproblem. Non-trivial: at least two classes of different means")
ASSUMPTIONS = ["datasets with cond(Sw) < 1e8 after scaling the features"]
NAMES = [[1, 2, 3, 4, 5, 6, 7, 8], [0, -1, 10, 5, 100, 7, -20, 3], ["a", "b", "c", "d", "e", "f", "g", "h"],
         ["one", "x", "class 2", "1", "A", "", "long label", "zz"], [8, 7, 6, 5, 4, 3, 2, 1],
         ["10", "9", "1", "2", "-1", "0", "3", "100"],
         ["class number %d" % i for i in range(8)], ["%d is the class of this sample" % i for i in range(8)],
         [2 ** 40 + i for i in range(8)], [-2 ** 53 + i for i in range(8)], [i * 256 for i in range(8)],
         [i * 2 ** 32 + 1 for i in range(8)], ["a", "A", "aa", "AA", " a", "a ", "a a", "\u00e4"],
         [True, False], list(range(24)), ["c%d" % i for i in range(24)], [i * 0.5 for i in range(24)],
         [300, 44, 556, 812, -212, 1068, 1324, 1580]]


LONG = gen.sizes_near_constants("lda", 2, 4000, 6000)


@st.composite
def cases_(draw, tier):
    n = gen.tail(draw, 2, 6, 16, "preprocess")
    cl = gen.tail(draw, 1, 8, 20, "preprocess")
    N = draw(st.integers(n + cl + 3, n + cl + 60)) if draw(st.integers(0, 19)) else draw(st.integers(100, 600))
    if draw(st.integers(0, 39)) == 0:
        N = max(n + cl + 3, draw(st.sampled_from(LONG)) * draw(st.sampled_from([1, 1, cl])))
        N = min(N, 6000)
    names = draw(st.integers(0, len(NAMES) - 1))
    cl = min(cl, len(NAMES[names]))
    return {"N": N, "n": n, "cl": cl, "k": draw(st.integers(1, n - 1)),
            "x": draw(mats.spec(["gauss", "gauss", "corr", "ints", "mixed", "heavy"])),
            "names": names, "box": draw(st.sampled_from(["list", "tuple", "array"])),
            "sep": draw(st.sampled_from([0.0, 0.3, 1.0, 5.0, 100.0])), "sizes": draw(st.sampled_from(
                ["even", "random", "unbalanced", "sorted"])),
            "same": draw(st.integers(0, 4)) == 0, "order": draw(st.booleans()), "relabel": draw(st.booleans()),
            "how": draw(st.sampled_from(["n", "n", "n", "kw", "omitted", "False", "None"]))}


def cases(tier):
    return cases_(tier)


def make(case):
    N, n, cl = case["N"], case["n"], case["cl"]
    rs = np.random.RandomState(case["x"]["seed"] + 1)
    how = case["sizes"]
    lab = rs.randint(0, cl, N)
    if how == "even":
        lab = np.arange(N) % cl
    elif how == "sorted":
        lab = np.sort(lab)
    elif how == "unbalanced":
        lab = np.where(rs.random_sample(N) < 0.85, 0, lab)
        lab[:cl] = np.arange(cl)
    x = mats.expand(case["x"], N, n)
    m = rs.normal(0, 1, (cl, n))
    if case["same"]:
        m[:, :] = m[:1]                      # equal class centres in all but one direction
        m[:, 0] = rs.normal(0, 1, cl)
    return x + case["sep"] * np.std(x, axis=0) * m[lab], lab


def scatters(x, lab):
    n = x.shape[1]
    tot = np.mean(x, axis=0)
    Sw, Sb = np.zeros((n, n)), np.zeros((n, n))
    for c in np.unique(lab):
        z = x[lab == c]
        m = np.mean(z, axis=0)
        Sw += (z - m).T @ (z - m)
        Sb += len(z) * np.outer(m - tot, m - tot)
    return Sw, Sb


def named(lab, which, box):
    v = [NAMES[which][i] for i in lab]
    return np.array(v) if box == "array" else tuple(v) if box == "tuple" else v


def check(case):
    N, n, k = case["N"], case["n"], case["k"]
    x, lab = make(case)
    Sw, Sb = scatters(x, lab)
    dg = np.sqrt(np.diag(Sw))
    info = ["classes:%d" % len(np.unique(lab)), "x:" + case["x"]["p"], "box:" + case["box"], "sizes:" + case["sizes"]]
    big = np.max(np.abs(x), axis=0)
    if not np.all(dg > 1e-4 * big) or np.linalg.cond(Sw) > 1e9 or np.linalg.cond(Sw / np.outer(dg, dg)) > 1e5:
        return {"labels": info + ["ill-conditioned"], "nontrivial": False}
    if case["how"] in ("omitted", "False", "None"):
        k = n - 1
    run(case, x, lab, Sw, Sb, k, case["names"], "")
    if case["order"]:
        p = np.random.RandomState(3).permutation(N)
        run(case, x[p], lab[p], Sw, Sb, k, case["names"], " with samples in another order")
    if case["relabel"]:
        other = (case["names"] + 1) % len(NAMES)
        if len(NAMES[other]) >= case["cl"]:
            run(case, x, lab, Sw, Sb, k, other, " with other labels")
    return {"labels": info + ["how:" + case["how"]], "nontrivial": len(np.unique(lab)) > 1 and case["sep"] > 0}


def run(case, x, lab, Sw, Sb, k, which, note):
    from scipy.linalg import eigh
    N, n = x.shape
    P = pa.preprocess
    labels = named(lab, which, case["box"])
    how = case["how"]
    y = {"n": lambda: P.LDA(x, labels, k), "kw": lambda: P.LDA(x, labels, n=k), "omitted": lambda: P.LDA(x, labels),
         "False": lambda: P.LDA(x, labels, False), "None": lambda: P.LDA(x, labels, None)}[how]()
    ev = np.asarray(P.LDA_discriminants(x, labels))
    y = np.asarray(y)
    what = "LDA of %dx%d, %d classes (%s of %s)%s" % (N, n, len(np.unique(lab)), case["box"],
                                                     type(NAMES[which][0]).__name__, note)
    for name, r, shape in (("discriminants", ev, (n,)), ("reduced data", y, (N, k))):
        if r.shape != shape:
            raise Violation("%s: the shape of the %s is %s" % (what, name, r.shape))
        if r.dtype.kind != "f":
            raise Violation("%s: the %s are %s, not real" % (what, name, r.dtype))
        if not np.all(np.isfinite(r)):
            raise Violation("%s: the %s are not finite" % (what, name))
    lam = eigh(Sb, Sw, eigvals_only=True)[::-1]
    cond = np.linalg.cond(Sw)
    # rounding of the class centres, seen in the space where the within-class scatter is the identity
    Li = np.linalg.inv(np.linalg.cholesky(Sw))
    dw = 1e-15 * np.log2(N + 8) * np.linalg.norm(np.abs(Li) @ np.max(np.abs(x), axis=0))
    shift = 4 * np.sqrt(N * max(lam[0], 0)) * dw + 4 * N * dw ** 2
    tol = (1e-11 + 1e-15 * cond) * (lam[0] + 1e-6) * n + 10 * shift + 10 * lam[0] * dw * np.sqrt(N)
    if np.any(np.diff(ev) > tol):
        raise Violation("%s: the discriminants are not ordered: %s" % (what, ev))
    if not np.all(np.abs(ev - lam) <= tol):
        raise Violation("%s: discriminants %s instead of %s" % (what, ev, lam))
    if np.sum(np.abs(ev) > tol) > len(np.unique(lab)) - 1:
        raise Violation("%s: more than classes-1 non-zero discriminants: %s" % (what, ev))
    V, *_ = np.linalg.lstsq(x / np.max(np.abs(x), axis=0), y, rcond=None)
    V = V / np.max(np.abs(x), axis=0)[:, None]
    if not np.allclose(x @ V, y, rtol=0, atol=1e-7 * np.max(np.abs(y))):
        raise Violation("%s: the result is not a projection of the data" % what)
    u = np.linalg.norm(V, axis=0)
    if not np.all(np.abs(u - 1) < 1e-6):
        raise Violation("%s: the directions have the lengths %s" % (what, u))
    for j in range(k):
        v = V[:, j]
        R = Sb @ v - lam[j] * (Sw @ v)
        # measured in the space where the within-class scatter is the identity
        L = np.linalg.cholesky(Sw)
        r = np.linalg.norm(np.linalg.solve(L, R)) / np.sqrt(v @ Sw @ v)
        if r > (1e-6 + 1e-13 * cond) * (lam[0] + 1e-6) + 10 * tol:
            raise Violation("%s: direction %d does not solve the eigenproblem for discriminant %g (residual %g)"
                            % (what, j, lam[j], r))
    W = np.linalg.cholesky(Sw).T @ V
    W = W / np.linalg.norm(W, axis=0)
    if np.linalg.svd(W, compute_uv=False)[-1] < 1e-6:
        raise Violation("%s: the directions are not independent" % what)
