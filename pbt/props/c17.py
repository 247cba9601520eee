"""C17: results do not depend on how equal numbers are represented."""
import numpy as np
from hypothesis import strategies as st

from .. import calls, gen, hist, kinds
from ..lib import Violation, pa

ID = "C17"
BUDGET = {"quick": 2250, "thorough": 9000}
RULE = ("case = numbers that several representations hold exactly, given once as float64 C arrays and once as lists, "
        "tuples, integer arrays of any width and sign, half/single precision, Fortran-ordered, strided, reversed or "
        "read-only arrays, to a filter (batch and sample by sample) or a listed function. Non-trivial: the "
        "representation is not float64 C-contiguous and not all numbers are zero")

LAYOUTS = ["c", "fortran", "strided", "reversed", "readonly", "offset", "column", "backstep", "broadcast", "list", "tuple", "rowlist",
           "ro-reversed", "ro-strided", "ro-column", "ro-fortran"]
# dtypes and the largest integer magnitude that they hold exactly
DTYPES = {"float64": 2 ** 40, "float32": 2 ** 20, "float16": 1024, "int8": 127, "int16": 32767, "int32": 2 ** 30,
          "int64": 2 ** 40, "uint8": 255, "uint16": 65535, "uint32": 2 ** 31, "uint64": 2 ** 40,
          ">f8": 2 ** 40, ">f4": 2 ** 20, ">i2": 32767, ">i4": 2 ** 30}


@st.composite
def cases_(draw, tier):
    fn = draw(st.sampled_from(["filter"] * 6 + ["standardize", "standardize_os", "standardize_back",
                                                "input_from_history"] + ["metric"] * 2))
    case = {"fn": fn, "dx": draw(st.sampled_from(sorted(DTYPES) + ["float64"] * 4)), "dd": draw(st.sampled_from(sorted(DTYPES) + ["float64"] * 3)),
            "lx": draw(st.sampled_from(LAYOUTS)), "ld": draw(st.sampled_from(LAYOUTS)),
            "seed": draw(gen.SEEDS), "size": draw(st.sampled_from(["small", "mid", "full", "small"])),
            "frac": draw(st.booleans())}
    if fn == "filter":
        case["cfg"] = draw(kinds.config(n=gen.tail(draw, 1, 6, 24)))
        case["N"] = draw(st.one_of(st.integers(1, 12), st.integers(1, 60)))
        case["mode"] = draw(st.sampled_from(["run", "online", "pretrained"]))
        case["dw"] = draw(st.sampled_from(sorted(DTYPES)))
        case["lw"] = draw(st.sampled_from(LAYOUTS))
        case["sd"] = draw(st.sampled_from(["float", "int", "npscalar"]))
    else:
        case["N"] = draw(st.one_of(st.integers(1, 12), st.integers(1, 300)))
        case["n"] = draw(st.integers(1, case["N"]))
        case["m"] = draw(st.sampled_from(["MSE", "MAE", "RMSE", "logSE"]))
        case["pair"] = draw(st.booleans())
        case["bias"] = draw(st.booleans())
    return case


def cases(tier):
    return cases_(tier)


def numbers(case, which, shape):
    """float64 values that the drawn dtype holds exactly."""
    dt = np.dtype(case["d" + which])
    rs = np.random.RandomState((case["seed"] + {"x": 0, "d": 5, "w": 7}[which]) % 2 ** 31)
    top = DTYPES[dt.name]           # (of the native type of the same name)
    top = {"small": min(top, 9), "mid": min(top, 120), "full": top}[case["size"] if which != "w" else "small"]
    lo = 0 if dt.kind == "u" else -top
    v = rs.randint(lo, top + 1, shape).astype(float)
    if dt.kind == "f" and case["frac"]:
        v = v / 8.0 if dt.name != "float16" else np.clip(np.round(v), -128, 128) / 8.0
        if dt.name == "float64" and case["size"] == "small":        # any double precision numbers
            v = rs.normal(0, 1, shape)
    return v


def represent(v, dtype, layout):
    a = v.astype(dtype)
    assert np.array_equal(a.astype(float), v)
    if layout.startswith("ro-"):
        a = represent(v, dtype, layout[3:])
        a.setflags(write=False)
        return a
    if layout == "list":
        return a.tolist()
    if layout == "tuple":
        return tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
    if layout == "rowlist":
        return [r for r in a] if a.ndim == 2 else [t for t in a]
    if layout == "fortran":
        return np.asfortranarray(a)
    if layout == "strided":
        t, o = (2, 3, 5)[a.size % 3], a.size % 2      # step and start
        big = np.full([t * s + o for s in a.shape], 77).astype(dtype)
        view = big[tuple(slice(o, t * s + o, t) for s in a.shape)]
        view[...] = a
        return view
    if layout == "column":
        big = np.full(a.shape + (3,), 33).astype(dtype)
        big[..., 1] = a
        return big[..., 1]
    if layout == "backstep":
        big = np.full([2 * s for s in a.shape], 44).astype(dtype)
        view = big[tuple(slice(None, None, -2) for _ in a.shape)]
        view[...] = a
        return view
    if layout == "broadcast" and a.ndim and len(a) and np.all(a == a[:1]):
        return np.broadcast_to(a[0], a.shape)
    if layout == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if layout == "readonly":
        a.setflags(write=False)
        return a
    if layout == "offset":
        big = np.full(tuple(s + 2 for s in a.shape), 55).astype(dtype)
        view = big[tuple(slice(1, -1) for _ in a.shape)]
        view[...] = a
        return view
    return a


def eq(a, b, what, tol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind == "f" and b.dtype.kind == "f" and b.dtype.itemsize < 8:
        raise Violation("%s: the result has lost precision (%s)" % (what, b.dtype))
    a, b = a.astype(float), b.astype(float)
    if a.shape != b.shape:
        raise Violation("%s: shapes %s and %s" % (what, a.shape, b.shape))
    ok = np.abs(a - b) <= tol * np.max(np.abs(np.where(np.isfinite(a), a, 0)), initial=0)
    ok |= (a == b) | (np.isnan(a) & np.isnan(b))
    if not ok.all():
        i = np.argwhere(~ok)[0]
        raise Violation("%s: element %s is %.17g for float64 arrays and %.17g otherwise"
                        % (what, i.tolist(), a[tuple(i)], b[tuple(i)]))


def check(case):
    desc = "%s/%s" % (case["dx"], case["lx"])
    lab = ["fn:" + case["fn"], "dtype:" + case["dx"], "layout:" + case["lx"]]
    if case["fn"] == "filter":
        c, N = case["cfg"], case["N"]
        n = c["n"]
        x, d = numbers(case, "x", (N, n)), numbers(case, "d", N)
        given = not isinstance(c["w"], str)
        if given:
            w0 = numbers(case, "w", n)
            c = dict(c, w=w0.tolist())
        opts = kinds.options(c, x, d)
        if c["kind"] == "AP":
            opts["ifc"] = max(opts.get("ifc", 0.001), 1e-7 * float(np.max(np.sum(x * x, axis=1))) + 1e-9)
        A, B, P = kinds.make(c, opts), kinds.make(c, opts), kinds.make(c, opts)
        what = "%s fed with %s and %s/%s (%s)" % (c["kind"], desc, case["dd"], case["ld"], case["mode"])
        if given:
            B = kinds.cls(c["kind"])(n=n, w=represent(w0, case["dw"], case["lw"]), **opts)
            what += ", weights from %s/%s" % (case["dw"], case["lw"])
        xr, dr = represent(x, case["dx"], case["lx"]), represent(d, case["dd"], case["ld"])
        xp, dp = hist.perturbed(c, x, d)
        if case["mode"] == "online" or N < 2:
            ops = [["online", N]]
            RA, RP = hist.drive(A, ops, x, d), hist.drive(P, ops, xp, dp)
            RB = hist.Rec(N, n)
            for k in range(N):
                RB.w[k] = B.w
                RB.y[k] = B.predict(xr[k])
                RB.e[k] = d[k] - RB.y[k]
                t = dr[k]
                if case["sd"] == "int" and float(d[k]).is_integer():
                    t = int(d[k])
                elif case["sd"] == "float":
                    t = float(d[k])
                B.adapt(t, xr[k])
            RB.end = np.array(B.w)
        else:
            pre = case["mode"] == "pretrained"

            def go(f, dd, xx):
                R = hist.Rec(N - N // 2 if pre else N, n)
                r = f.pretrained_run(dd, xx, ntrain=0.5, epochs=1) if pre else f.run(dd, xx)
                for z in r:
                    if np.asarray(z).dtype != np.float64:
                        raise Violation("%s: results are %s" % (what, np.asarray(z).dtype))
                hist.shapes(*r, len(R.y), n)
                R.y, R.e, R.w = (np.array(z, dtype=float) for z in r)
                R.end = np.array(f.w)
                return R
            RA, RB, RP = go(A, d, x), go(B, dr, xr), go(P, dp, xp)
            if pre:
                x, d = x[N // 2:], d[N // 2:]
        if np.asarray(RB.end).dtype != np.float64:
            raise Violation("%s: the weights become %s" % (what, RB.end.dtype))
        wt, H = hist.tolerance(RA, RP)
        H = min(H, hist.tie_horizon(c, opts, x, d, RA, RB))
        hist.same(RA, RB, x, d, wt, H, what)
        lab.append(kinds.label(c))
        return {"labels": lab, "nontrivial": bool(np.any(x)) and bool(np.any(RA.w != RA.w[:1]) or N == 1)
                and (case["dx"], case["lx"]) != ("float64", "c")}
    N = case["N"]
    v = numbers(case, "x", N)
    r = represent(v, case["dx"], case["lx"])
    M, P = pa.misc, pa.preprocess
    fn = case["fn"]
    if fn == "standardize":
        if np.std(v) <= 1e-9 * np.max(np.abs(v)):
            return {"labels": lab, "nontrivial": False}
        eq(P.standardize(v), P.standardize(r), "standardize of %s" % desc, 1e-10)
        eq(pa.standardize(v), pa.standardize(r), "standardize of %s" % desc, 1e-10)
    elif fn == "standardize_os":
        eq(P.standardize(v, offset=3, scale=-2), P.standardize(r, offset=3.0, scale=np.float32(-2)),
           "standardize of %s" % desc)
    elif fn == "standardize_back":
        eq(P.standardize_back(v, 3, 0.5), P.standardize_back(r, 3.0, 0.5), "standardize_back of %s" % desc)
    elif fn == "input_from_history":
        eq(P.input_from_history(v, case["n"], bias=case["bias"]), P.input_from_history(r, case["n"], bias=case["bias"]),
           "input_from_history of %s" % desc)
    else:
        f = getattr(M, case["m"])
        if case["pair"]:
            u = numbers(case, "d", N)
            ur = represent(u, case["dd"], case["ld"])
            eq(f(v, u), f(r, ur), "%s of %s and %s/%s" % (case["m"], desc, case["dd"], case["ld"]))
        else:
            eq(f(v), f(r), "%s of %s" % (case["m"], desc))
        if case["m"] != "logSE":
            eq(f(v), M.get_mean_error(r, function=case["m"]), "get_mean_error of %s" % desc)
    return {"labels": lab, "nontrivial": bool(np.any(v)) and (case["dx"], case["lx"]) != ("float64", "c")}
