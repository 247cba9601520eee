"""C27: error metrics equal their definitions."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..lib import LD, Violation, pa

ID = "C27"
BUDGET = {"quick": 5000, "thorough": 25000}
RULE = ("case = (error series or pair, containers) with all metrics compared with their definitions in extended "
        "precision, their symmetry and the generic function; or a pair of different lengths, or an unknown name. "
        "Non-trivial: at least two different errors")
VALUE = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0, -3.0, 1e-3, 1e5, -1.0]),
                  st.floats(-1e4, 1e4, allow_nan=False).filter(lambda v: v == 0 or abs(v) > 1e-100),
                  st.integers(-20, 20).map(float))
BOX = ["array", "array", "list", "tuple", "int", "intlist", "strided"]


@st.composite
def series_(draw, N=None):
    if draw(st.integers(0, 1)) == 0 and (N is None or N <= 12):
        lo, hi = (1, 12) if N is None else (N, N)
        return {"X": draw(st.lists(VALUE, min_size=lo, max_size=hi))}
    if N is None:
        N = draw(st.integers(1, 60)) if draw(st.integers(0, 14)) else \
            draw(st.sampled_from(gen.sizes_near_constants("misc", 1, 4000, 70000) + [1000, 4097]))
    return {"seed": draw(gen.SEEDS), "N": N, "p": draw(st.sampled_from(["gauss", "ints", "sparse", "heavy", "const"])),
            "sc": draw(st.sampled_from([1.0, 1.0, 1e3, 1e-3, 1e-8, 1e8, 1e-60, 1e60])),
            "off": draw(st.sampled_from([0.0, 0.0, 1.0, -100.0]))}


@st.composite
def cases_(draw, tier):
    a = draw(series_())
    N = len(a["X"]) if "X" in a else a["N"]
    case = {"a": a, "box": draw(st.sampled_from(BOX)), "box2": draw(st.sampled_from(BOX)),
            "kw": draw(st.booleans())}
    c = draw(st.integers(0, 19))
    if c < 10:
        case["b"] = draw(series_(N))
    elif c < 12:
        # lengths differ
        M = draw(st.one_of(st.sampled_from([1, N + 1, max(1, N - 1), 2 * N]), st.integers(1, 20)))
        case["b"] = draw(series_(M if M != N else N + 1))
    elif c < 13:
        case["name"] = draw(st.sampled_from(["mse", "", None, "SE", "RMS", "MSE ", "rmse", "ME", 1, "MAD"]))
        if draw(st.booleans()):
            case["b"] = draw(series_(N))
    elif c < 14:
        case["near"] = True
    if draw(st.integers(0, 14)) == 0:
        case["odd"] = [draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(["nan", "inf", "-inf"]))]
    return case


def cases(tier):
    return cases_(tier)


def values(s):
    if "X" in s:
        return np.array(s["X"], dtype=float)
    rs = np.random.RandomState(s["seed"])
    N = s["N"]
    g = rs.normal(0, 1, N)
    x = {"gauss": g, "ints": rs.randint(-9, 10, N) * 1.0, "sparse": g * (rs.random_sample(N) < 0.3),
         "heavy": np.clip(rs.standard_t(1.2, N), -1e5, 1e5), "const": np.full(N, 2.0)}[s["p"]]
    return (x + s["off"]) * s["sc"]


def boxed(v, how):
    whole = np.array_equal(v, np.round(v)) and np.max(np.abs(v), initial=0) < 2 ** 30
    if how == "list":
        return v.tolist()
    if how == "tuple":
        return tuple(v.tolist())
    if how == "int" and whole:
        return v.astype(np.int64)
    if how == "intlist" and whole:
        return [int(t) for t in v]
    if how == "strided":
        return np.repeat(v, 2)[::2]
    return v.copy()


NAMES = ["MSE", "MAE", "RMSE", "logSE"]


def near(got, want, what, vector=False):
    got = np.asarray(got)
    if got.shape != np.shape(want):
        raise Violation("%s: the result has the shape %s" % (what, got.shape))
    want = np.asarray(want, dtype=LD)
    same = (got == want)
    tol = 1e-12 * np.abs(want) + (1e-11 if vector else 1e-300)
    with np.errstate(all="ignore"):
        ok = same | (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= tol)
    if not np.all(ok):
        raise Violation("%s: %s instead of %s" % (what, np.ravel(got)[~np.ravel(ok)][0], np.ravel(want)[~np.ravel(ok)][0]))


def check(case):
    M = pa.misc
    a = values(case["a"])
    b = values(case["b"]) if "b" in case else None
    if case.get("odd"):
        a[case["odd"][0] % len(a)] = float(case["odd"][1])
    if case.get("near"):
        b = a.copy()
        b[len(b) // 2] += 1
    A = boxed(a, case["box"])
    args, kw = (A,), {}
    if b is not None:
        B = boxed(b, case["box2"])
        args, kw = ((A,), {"x2": B}) if case["kw"] else ((A, B), {})
    if "name" in case:
        try:
            M.get_mean_error(*args, function=case["name"], **kw)
        except ValueError:
            return {"labels": ["unknown name"], "nontrivial": False}
        except Exception as exc:
            raise Violation("get_mean_error with the unknown name %r raises %s" % (case["name"], type(exc).__name__))
        raise Violation("get_mean_error accepts the unknown name %r" % (case["name"],))
    if b is not None and len(a) != len(b):
        for name in NAMES + ["get_mean_error"]:
            for p, q in ((A, B), (B, A)):
                try:
                    getattr(M, name)(p, q)
                except ValueError:
                    continue
                except Exception as exc:
                    raise Violation("%s of series of lengths %d and %d raises %s" % (name, len(a), len(b),
                                                                                    type(exc).__name__))
                raise Violation("%s accepts series of lengths %d and %d" % (name, len(a), len(b)))
        return {"labels": ["lengths differ"], "nontrivial": False}
    e = (a - b if b is not None else a).astype(LD)
    N = len(e)
    mse = np.sum(e * e) / N
    with np.errstate(all="ignore"):
        want = {"MSE": mse, "MAE": np.sum(np.abs(e)) / N, "RMSE": np.sqrt(mse),
                "logSE": 20 * np.log10(np.abs(e))}
    kind = "a pair" if b is not None else "errors"
    for name in NAMES:
        what = "%s of %s (%d values)" % (name, kind, N)
        got = getattr(M, name)(*args, **kw)
        near(got, want[name], what, name == "logSE")
        if b is not None:
            near(getattr(M, name)(B, A), want[name], what + ", swapped", name == "logSE")
        if name != "logSE":
            near(M.get_mean_error(*args, function=name, **kw), want[name], "get_mean_error(%s) of %s" % (name, kind))
    near(M.get_mean_error(*args, **kw), want["MSE"], "get_mean_error of %s" % kind)
    return {"labels": [kind, "box:" + case["box"], "N:1" if N == 1 else "N:2+"]
            + (["zero errors"] if np.any(e == 0) else []) + (["second series of -1"] if b is not None and np.all(b == -1) else []),
            "nontrivial": len(set(np.abs(e).tolist())) > 1}
