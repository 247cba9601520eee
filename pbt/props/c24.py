"""C24: history matrices contain every window of the series, in order."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..lib import Violation, pa

ID = "C24"
BUDGET = {"quick": 5000, "thorough": 25000}
RULE = ("case = (series, size, bias, representation) compared element by element with slices of the series, or a "
        "size that must be refused. Non-trivial: more than one row and column of distinct values")
BADN = [0, -1, -5, 2.0, 1.0, 2.5, "2", None, [2], (1,), -3.0, 0.5, float("nan"), {"n": 2}, "a", b"2", 0.0, 2 + 0j]


@st.composite
def cases_(draw, tier):
    L = draw(st.integers(1, 40)) if draw(st.integers(0, 14)) else \
        draw(st.sampled_from(gen.sizes_near_constants("preprocess", 1, 3000, 140000) + [1500]))
    c = draw(st.integers(0, 9))
    n = draw(st.integers(1, L)) if c < 6 else draw(st.sampled_from([1, L, max(1, L - 1), min(L, 2), (L + 1) // 2]))
    if n * (L - n + 1) > 420000:
        n = 3
    case = {"L": L, "n": n, "seed": draw(gen.SEEDS), "p": draw(st.sampled_from(["distinct", "gauss", "ints", "huge", "special", "const"])),
            "bias": draw(st.sampled_from([True, False, None])), "as": draw(st.sampled_from(
                ["array", "array", "list", "tuple", "int", "strided", "readonly", "reversed"])),
            "api": draw(st.sampled_from(["pa", "preprocess"])), "pos": draw(st.booleans())}
    if draw(st.integers(0, 9)) == 0:
        case["bad"] = draw(st.integers(0, len(BADN) - 1))
    return case


def cases(tier):
    return cases_(tier)


def check(case):
    rs = np.random.RandomState(case["seed"])
    L, n = case["L"], case["n"]
    a = {"distinct": rs.permutation(L) + 1.0, "gauss": rs.normal(0, 1, L), "ints": rs.randint(-5, 6, L) * 1.0,
         "special": np.array([1.0, np.nan, np.inf, -np.inf, 0.0, -0.0, 2.0])[rs.randint(0, 7, L)],
         "const": np.full(L, 2.5), "huge": rs.normal(0, 1, L) * 10.0 ** rs.uniform(-200, 200, L)}[case["p"]]
    g = a.copy()
    how = case["as"]
    if how == "list":
        g = a.tolist()
    elif how == "tuple":
        g = tuple(a.tolist())
    elif how == "int" and np.all(np.isfinite(a)) and np.array_equal(a, np.round(a)) and np.max(np.abs(a)) < 2 ** 50:
        g = a.astype(np.int64)
    elif how == "strided":
        g = np.repeat(a, 3)[1::3]
    elif how == "readonly":
        g.setflags(write=False)
    elif how == "reversed":
        g = a[::-1].copy()[::-1]
    f = (pa if case["api"] == "pa" else pa.preprocess).input_from_history
    if "bad" in case:
        bad = BADN[case["bad"]]
        try:
            f(g, bad) if case["bias"] is None else f(g, bad, bias=case["bias"])
        except ValueError:
            return {"labels": ["refused"], "nontrivial": False}
        except Exception as exc:
            raise Violation("input_from_history with the size %r raises %s instead of a ValueError"
                            % (bad, type(exc).__name__))
        raise Violation("input_from_history accepts the size %r" % (bad,))
    b = bool(case["bias"])
    got = f(g, n) if case["bias"] is None else f(g, n, b) if case["pos"] else f(a=g, n=n, bias=b)
    got = np.asarray(got)
    what = "input_from_history (length %d, n=%d, bias=%s)" % (L, n, case["bias"])
    if got.shape != (L - n + 1, n + b):
        raise Violation("%s: the shape is %s instead of %s" % (what, got.shape, (L - n + 1, n + b)))
    for i in range(L - n + 1):
        if not np.array_equal(got[i, :n], a[i:i + n], equal_nan=True):
            raise Violation("%s: row %d is not the series from %d to %d" % (what, i, i, i + n - 1))
    if b and not np.all(got[:, n] == 1):
        raise Violation("%s: the last column is not all ones" % what)
    return {"labels": ["bias:%s" % case["bias"], "as:" + how] + (["n=1"] if n == 1 else []) + (["n=L"] if n == L else []),
            "nontrivial": L - n + 1 > 1 and n > 1 and len(set(a.tolist())) > 1}
