"""C25: PCA yields real, uncorrelated components of largest variance, in order."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, mats
from ..lib import Violation, pa

ID = "C25"
BUDGET = {"quick": 5000, "thorough": 25000}
RULE = ("case = (dataset, requested number of columns): eigenvalues against the singular values of the centred data, "
        "the reduced data as a projection on orthonormal directions with the leading eigenvalues as variances and no "
        "correlation. Non-trivial: at least two different eigenvalues above zero")
PATS = ["gauss", "corr", "corr", "lowrank", "dup", "ints", "axes", "equal", "mixed", "constcol", "heavy", "const"]


@st.composite
def cases_(draw, tier):
    n = draw(st.integers(2, 7)) if draw(st.integers(0, 9)) else draw(st.integers(2, 30))
    N = draw(st.one_of(st.integers(2, 2 * n), st.integers(2, 60))) if draw(st.integers(0, 19)) else \
        draw(st.sampled_from([v for v in gen.sizes_near_constants("pca", 2, 2000, 12000)] + [500]))
    return {"N": N, "n": n, "k": draw(st.integers(1, n - 1)), "x": draw(mats.spec(PATS)),
            "how": draw(st.sampled_from(["n", "n", "n", "kw", "omitted", "False", "None", "np"])),
            "as": draw(st.sampled_from(["array", "array", "fortran", "view", "int"])),
            "clist": draw(st.booleans())}


def cases(tier):
    return cases_(tier)


def check(case):
    N, n, k = case["N"], case["n"], case["k"]
    x = mats.expand(case["x"], N, n)
    xa = x
    if case["as"] == "fortran":
        xa = np.asfortranarray(x)
    elif case["as"] == "view":
        xa = np.repeat(x, 2, axis=0)[::2]
    elif case["as"] == "int" and np.array_equal(x, np.round(x)) and np.max(np.abs(x)) < 2 ** 20:
        xa = x.astype(np.int64)
    how = case["how"]
    if how in ("omitted", "False", "None"):
        k = n - 1
    P = pa.preprocess
    y = {"n": lambda: P.PCA(xa, k), "kw": lambda: P.PCA(xa, n=k), "omitted": lambda: P.PCA(xa),
         "False": lambda: P.PCA(xa, False), "None": lambda: P.PCA(xa, None),
         "np": lambda: P.PCA(xa, np.int64(k))}[how]()
    ev = np.asarray(P.PCA_components(xa.tolist() if case["clist"] else xa))
    y = np.asarray(y)
    what = "PCA of %dx%d (%s), %d columns" % (N, n, case["x"]["p"], k)
    for name, r, shape in (("components", ev, (n,)), ("reduced data", y, (N, k))):
        if r.shape != shape:
            raise Violation("%s: the shape of the %s is %s" % (what, name, r.shape))
        if r.dtype.kind != "f":
            raise Violation("%s: the %s are %s, not real" % (what, name, r.dtype))
        if not np.all(np.isfinite(r)):
            raise Violation("%s: the %s are not finite" % (what, name))
    c = x - np.mean(x, axis=0)
    c = c - np.mean(c, axis=0)
    sv = np.linalg.svd(c, compute_uv=False)
    lam = np.zeros(n)
    lam[:len(sv)] = sv ** 2 / (N - 1)
    big = np.max(np.abs(x))
    top = lam[0]
    tol = 1e-12 * n * top + 20 * (1e-15 * big) * np.sqrt(top) * n + 100 * (1e-15 * big * n) ** 2
    if np.any(np.diff(ev) > tol):
        raise Violation("%s: the eigenvalues are not ordered: %s" % (what, ev))
    if not np.all(np.abs(ev - lam) <= tol):
        raise Violation("%s: eigenvalues %s instead of %s" % (what, ev, lam))
    tv = np.sum(np.var(c, axis=0)) * N / (N - 1)
    if abs(np.sum(ev) - tv) > n * tol:
        raise Violation("%s: eigenvalues sum to %g, the total variance is %g" % (what, np.sum(ev), tv))
    # variances and correlations of the result
    yc = y - np.mean(y, axis=0)
    cov = yc.T @ yc / (N - 1)
    tol2 = 10 * n * tol
    if not np.all(np.abs(np.diag(cov) - lam[:k]) <= tol2):
        raise Violation("%s: column variances %s instead of the leading eigenvalues %s" % (what, np.diag(cov), lam[:k]))
    if not np.all(np.abs(cov - np.diag(np.diag(cov))) <= tol2):
        raise Violation("%s: the columns are correlated" % what)
    # a projection on orthonormal directions: Y = X V, V'V = I as far as X determines V
    if big > 0:
        U, s, Wt = np.linalg.svd(x, full_matrices=False)
        r = int(np.sum(s > 1e-5 * s[0]))
        B = (U[:, :r].T @ y) / s[:r, None]
        res = y - U[:, :r] @ (s[:r, None] * B)
        if np.max(np.abs(res)) > 2e-5 * s[0]:
            raise Violation("%s: the result is not a projection of the data" % what)
        G = B.T @ B
        t3 = 1e-8
        if r == n:
            if not np.all(np.abs(G - np.eye(k)) <= t3):
                raise Violation("%s: the directions of the projection are not orthonormal" % what)
        else:
            g = np.linalg.eigvalsh(G)
            if g[-1] > 1 + t3:
                raise Violation("%s: the directions of the projection are not orthonormal (longer than 1)" % what)
            if np.sum(g < 1 - 1e-4) > n - r:
                raise Violation("%s: the directions of the projection are not orthonormal (shorter than 1)" % what)
    rank = int(np.sum(lam > 1e-9 * max(top, 1e-300)))
    return {"labels": ["x:" + case["x"]["p"], "how:" + how] + (["N<=n"] if N <= n else [])
            + (["rank deficient"] if rank < n else ["full rank"]),
            "nontrivial": rank > 1 and lam[0] > lam[1] * (1 + 1e-9)}
