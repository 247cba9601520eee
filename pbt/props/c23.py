"""C23: standardisation removes offset and scale and is inverted exactly by its inverse."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..lib import LD, Violation, pa

ID = "C23"
BUDGET = {"quick": 5000, "thorough": 25000}
RULE = ("case = (series, given or omitted offset and scale, how they are given): standardised values against the "
        "definition in extended precision, their mean and deviation, and the round trip. Non-trivial: more than one "
        "distinct value and at least two samples")
VALUE = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0, 100.0, -3.25, 1e-3, 1e6]),
                  st.floats(-1e3, 1e3, allow_nan=False).filter(lambda v: v == 0 or abs(v) > 1e-100), st.integers(-50, 50).map(float))


@st.composite
def cases_(draw, tier):
    if draw(st.integers(0, 2)) == 0:
        x = {"X": draw(st.lists(VALUE, min_size=1, max_size=12))}
    else:
        N = draw(st.integers(1, 60)) if draw(st.integers(0, 9)) else \
            draw(st.sampled_from([v for v in gen.sizes_near_constants("preprocess", 1, 4000, 70000)] + [1000, 4096]))
        x = {"seed": draw(gen.SEEDS), "N": N,
             "p": draw(st.sampled_from(["gauss", "ints", "range", "binary", "heavy", "const+", "sine"])),
             "sc": draw(st.sampled_from([1.0, 1.0, 1e3, 1e-3, 1e-8, 1e8, 1e-30, 1e30, 1e-100, 1e100])),
             "off": draw(st.sampled_from([0.0, 0.0, 1.0, -5.0, 100.0, 1e4, 1e6]))}
    num = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, -0.5, 3.0, 1e-3, 1e4, -0.0]), st.floats(-100, 100).filter(
        lambda v: v == 0 or abs(v) > 1e-100))
    nz = st.one_of(st.sampled_from([1.0, -1.0, 2.0, -0.5, 3.0, 1e-3, 1e4]),
                   st.floats(1e-3, 100), st.floats(-100, -1e-3))
    return {"x": x, "o": draw(st.one_of(st.none(), num)), "s": draw(st.one_of(st.none(), nz)),
            "rel": draw(st.booleans()), "as": draw(st.sampled_from(["float", "int", "np", "np32", "0d"])),
            "pos": draw(st.booleans()), "api": draw(st.sampled_from(["pa", "preprocess"])),
            "xas": draw(st.sampled_from(["array", "list", "tuple", "int"])), "cols": draw(st.sampled_from([0] * 9 + [1, 2, 3]))}


def cases(tier):
    return cases_(tier)


def series(s):
    if "X" in s:
        return np.array(s["X"], dtype=float)
    rs = np.random.RandomState(s["seed"])
    N = s["N"]
    x = {"gauss": rs.normal(0, 1, N), "ints": rs.randint(-9, 10, N).astype(float), "range": np.arange(N) * 1.0,
         "binary": rs.randint(0, 2, N) * 1.0, "heavy": np.clip(rs.standard_t(1.2, N), -1e5, 1e5),
         "const+": 3.0 + 1e-3 * (np.arange(N) % 5 == 0), "sine": np.sin(np.arange(N) * 0.3)}[s["p"]]
    return (x + s["off"]) * s["sc"]


def arg(v, how):
    if v is None:
        return None
    if how == "int" and float(v).is_integer():
        return int(v)
    if how == "np":
        return np.float64(v)
    if how == "np32" and float(np.float32(v)) == v:
        return np.float32(v)
    if how == "0d":
        return np.array(v)
    return float(v)


def near(a, b, tol, what):
    a = np.asarray(a)
    if a.shape != b.shape:
        raise Violation("%s: the result has the shape %s" % (what, a.shape))
    bad = ~(np.abs(a.astype(LD) - b) <= tol)
    if bad.any():
        k = int(np.argwhere(bad)[0, 0])
        raise Violation("%s: element %d of %d is %.17g instead of %.17g" % (what, k, len(a), a[k], b[k]))


class Matrix:
    """The functions on series, given matrices (and their results as series again)."""

    def __init__(self, mod, cols):
        self.mod, self.cols = mod, cols

    def call(self, name, x, *a, **kw):
        x = np.reshape(x, (-1, self.cols))
        r = np.asarray(getattr(self.mod, name)(x, *a, **kw))
        if r.shape != x.shape:
            raise Violation("%s of a %s matrix has the shape %s" % (name, x.shape, r.shape))
        return r.ravel()

    def standardize(self, x, *a, **kw):
        return self.call("standardize", x, *a, **kw)

    def standardize_back(self, x, *a, **kw):
        return self.call("standardize_back", x, *a, **kw)


def check(case):
    x = series(case["x"])
    N = len(x)
    unit = np.max(np.abs(x))
    o, s = case["o"], case["s"]
    if case["rel"] and unit > 0:        # offset and scale of the size of the data
        o = None if o is None else float(o * unit / 3)
        s = None if s is None else float(s * unit / 3)
    mod = pa if case["api"] == "pa" else pa.preprocess
    cols = case.get("cols", 0)
    if cols and N > cols and N % cols == 0:
        mod = Matrix(mod, cols)
    xl = x.astype(LD)
    oo = np.sum(xl) / N if o is None else LD(o)
    sig = np.sqrt(np.sum((xl - np.sum(xl) / N) ** 2) / N)
    ss = sig if s is None else LD(s)
    lab = ["offset given" if o is not None else "offset omitted", "scale given" if s is not None else "scale omitted",
           "N:1" if N == 1 else "N:2+"]
    if s is None and not sig > 1e-9 * unit:
        return {"labels": lab + ["no scale"], "nontrivial": False}
    xa = x
    if case["xas"] in ("list", "tuple"):
        xa = x.tolist() if case["xas"] == "list" else tuple(x.tolist())
    elif case["xas"] == "int" and np.array_equal(x, np.round(x)) and unit < 2 ** 50:
        xa = x.astype(np.int64)
    a, b = arg(o, case["as"]), arg(s, case["as"])
    what = "standardize(offset=%r, scale=%r) of %d values" % (a, b, N)
    if case["pos"]:
        got = mod.standardize(xa, a, b)
    else:
        kw = {k: v for k, v in (("offset", a), ("scale", b)) if v is not None}
        got = mod.standardize(xa, **kw)
    want = (xl - oo) / ss
    eo = 4e-16 * (np.log2(N) + 8) * unit if o is None else 0
    es = (2 * eo + 4e-16 * (np.log2(N) + 8) * unit) if s is None else 0
    tol = (4e-16 * (np.abs(xl) + abs(oo)) + eo) / abs(ss) + np.abs(want) * (es / abs(ss) + 1e-15) + 1e-300
    near(got, want, tol, what)
    got = np.asarray(got, dtype=float)
    if o is None and s is None:
        t = float(np.max(tol)) + 1e-12
        if not abs(np.mean(got)) <= t:
            raise Violation("%s: the mean of the result is %g" % (what, np.mean(got)))
        if not abs(np.std(got) - 1) <= 2 * t:
            raise Violation("%s: the deviation of the result is %.12g" % (what, np.std(got)))
    # and back, with given numbers
    o2, s2 = (float(np.mean(x)) if o is None else o), (float(np.std(x)) if s is None else s)
    a2, b2 = arg(o2, case["as"]), arg(s2, case["as"])
    if o is None or s is None:
        xs = np.asarray(mod.standardize(x, offset=o2, scale=s2), dtype=float)
    else:
        xs = got
    xb = xs if case["xas"] == "array" else xs.tolist() if case["xas"] == "list" else tuple(xs.tolist())
    back = mod.standardize_back(xb, a2, b2) if case["pos"] else mod.standardize_back(xb, offset=a2, scale=b2)
    want = xs.astype(LD) * LD(s2) + LD(o2)
    near(back, want, 4e-16 * (np.abs(xs.astype(LD) * LD(s2)) + abs(LD(o2))) + LD(1e-300),
         "standardize_back(%r, %r)" % (a2, b2))
    near(back, xl, 2e-15 * (np.abs(xl) + 2 * abs(LD(o2))) + LD(1e-300), "round trip with %r and %r" % (a2, b2))
    if o is None or s is None:
        # back with the omitted numbers, which are the mean and the deviation
        near(mod.standardize_back(got, o2, s2), xl, np.max(tol) * abs(ss) * 4 + 2e-15 * (np.abs(xl) + 2 * abs(LD(o2))),
             "round trip with default offset or scale")
    return {"labels": lab + ["args as " + case["as"], "x as " + case["xas"]],
            "nontrivial": N > 1 and bool(np.any(x != x[0]))}
