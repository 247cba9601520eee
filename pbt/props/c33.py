"""C33: detectors, decompositions and networks see numbers, not their representation."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..lib import Violation, pa
from .c17 import DTYPES, LAYOUTS, represent

ID = "C33"
BUDGET = {"quick": 2200, "thorough": 9000}
RULE = ("case = numbers that several representations hold exactly, given once as float64 C arrays and once as lists (where "
        "documented arguments allow them), integer arrays of any width and sign, half/single precision, strided, reversed, "
        "Fortran-ordered or read-only arrays, to learning entropy, ELBND, ESE, PCA, LDA or a network. Non-trivial: the "
        "representation is not float64 C-contiguous, and the result is not all zero")
FNS = ["LE", "LE", "LEms", "LEms", "ELBND", "ELBND", "ESE", "PCA", "PCAc", "LDA", "LDAc", "net", "net", "net"]
SEQ = ("list", "tuple", "rowlist")


@st.composite
def cases_(draw, tier):
    fn = draw(st.sampled_from(FNS))
    pick = st.sampled_from
    case = {"fn": fn, "dx": draw(pick(sorted(DTYPES) + ["float64"] * 5)), "dd": draw(pick(sorted(DTYPES) + ["float64"] * 2)),
            "lx": draw(pick(LAYOUTS)), "ld": draw(pick(LAYOUTS)), "seed": draw(gen.SEEDS),
            "size": draw(pick(["small", "mid", "full", "full", "mid"])), "frac": draw(st.booleans())}
    case["N"] = draw(st.integers(2, 30))
    case["n"] = gen.tail(draw, 1, 4, 24)
    if fn.startswith("LE"):
        case["m"] = gen.tail(draw, 1, 9, 40)
        case["order"] = gen.tail(draw, 1, 3, 8)
        case["N"] += case["m"] + case["order"]
        case["alpha"] = draw(st.lists(pick([0.5, 1, 1.25, 2, 3, 1.5, 4, 8]), min_size=1, max_size=5))
    elif fn == "ELBND":
        case["agg"] = draw(pick(["max", "sum"]))
    elif fn == "ESE":
        case["m"] = draw(st.integers(20, 40))
        case["N"] = case["m"] + draw(st.integers(1, 5))
        case["n"] = draw(st.integers(1, 2)) if draw(st.integers(0, 9)) else draw(st.integers(3, 12))
    elif fn[:3] in ("PCA", "LDA"):
        case["n"] = gen.tail(draw, 2, 5, 12)
        case["N"] = draw(st.integers(3, 40)) + 4 * case["n"]
        case["k"] = draw(st.integers(1, case["n"] - 1))
        case["cl"] = draw(st.integers(2, 4))
        case["names"] = draw(pick(["count", "count", "step", "high", "any", "neg"]))
    else:
        case["layers"] = [gen.tail(draw, 1, 4, 16, "ann") for _ in range(gen.tail(draw, 1, 2, 5))]
        case["out"] = gen.tail(draw, 1, 3, 9)
        case["act"] = draw(pick(["sigmoid", "tanh"]))
        case["mode"] = draw(pick(["train", "test", "run", "online"]))
        case["N"] = draw(st.integers(1, 12))
        case["size"] = draw(pick(["small", "small", "mid"] * 2 + (["full"] if case["mode"] in ("test", "run") else ["mid"])))
    if draw(st.integers(0, 19)) == 0 and fn in ("LE", "ELBND", "PCAc", "LDAc"):
        case["N"] += draw(pick([100, 256, 300, 600, 1000]))
    return case


def cases(tier):
    return cases_(tier)


def numbers(case, which, shape):
    dt = np.dtype(case["dx" if which == "x" else "dd"])
    rs = np.random.RandomState((case["seed"] + (0 if which == "x" else 5)) % 2 ** 31)
    top = min({"small": 9, "mid": 120, "full": 2 ** 20}[case["size"]], DTYPES[dt.name])
    if case["fn"] == "ESE" or rs.randint(0, 2) == 0:
        v = np.clip(np.round(rs.normal(0, 1, shape) * top / 4), -top, top)
        v = np.abs(v) if dt.kind == "u" else v
    else:
        v = rs.randint(0 if dt.kind == "u" else -top, top + 1, shape).astype(float)
    if dt.kind == "f" and case["frac"]:
        v = v / 8.0 if dt.name != "float16" else np.clip(np.round(v), -128, 128) / 8.0
        if dt.name == "float64":        # any double precision numbers
            v = rs.normal(0, 1, shape) * 10.0 ** rs.randint(-3, 4)
    return v


def plain_ok(a, b, what, tol):
    """Equal up to rounding, the scale being the largest magnitude of the result."""
    a, b = np.asarray(a), np.asarray(b)
    if b.dtype.kind == "f" and b.dtype.itemsize < 8:
        raise Violation("%s: the result has lost precision (%s)" % (what, b.dtype))
    if a.shape != b.shape:
        raise Violation("%s: shapes %s and %s" % (what, a.shape, b.shape))
    a, b = a.astype(float), b.astype(float)
    fin = np.isfinite(a)
    t = tol if np.ndim(tol) else tol * np.max(np.abs(a[fin]), initial=0)
    ok = (np.abs(a - b) <= t) | (a == b) | (np.isnan(a) & np.isnan(b))
    if not ok.all():
        i = np.argwhere(~ok)[0]
        raise Violation("%s: element %s is %.17g for float64 arrays and %.17g otherwise"
                        % (what, i.tolist(), a[tuple(i)], b[tuple(i)]))


def check(case):
    fn = case["fn"]
    what = "%s of %s/%s numbers" % (fn, case["dx"], case["lx"])
    plain = (case["dx"], case["lx"]) == ("float64", "c")
    lab = ["fn:" + fn, "dtype:" + case["dx"], "layout:" + case["lx"]]
    if fn == "net":
        return dict(check_net(case, what), labels=lab + ["net:" + case["mode"]])
    N, n = case["N"], case["n"]
    lx = case["lx"]
    if lx in SEQ and fn not in ("LE", "LEms", "PCAc", "LDAc"):
        lx = "strided"
    v = numbers(case, "x", (N, n))
    D, P = pa.detection, pa.preprocess
    if fn in ("LDA", "LDAc"):
        labels = np.arange(N) % case["cl"]
        v0 = v + labels[:, None] * (1 if case["size"] == "small" else 8)
        v = np.where(v0 <= DTYPES[case["dx"]], v0, v) if np.dtype(case["dx"]).name != "float16" else v
    r = represent(v, case["dx"], lx)
    if fn in ("LE", "LEms"):
        kw = {"m": case["m"], "order": case["order"]}
        if fn == "LEms":
            al = np.array(case["alpha"], dtype=float)
            lal = case["ld"] if case["ld"] in ("c", "list", "tuple", "strided", "reversed", "readonly") else "list"
            dal = case["dd"] if np.array_equal(al.astype(case["dd"]).astype(float), al) else "float16"
            a = D.learning_entropy(v, alpha=al.tolist(), **kw)
            b = D.learning_entropy(r, alpha=represent(al, dal, lal), **kw)
        else:
            a, b = D.learning_entropy(v, **kw), D.learning_entropy(r, **kw)
        # sums of these numbers are exact, so equal windows give equal averages
        sd = 1e-9 if fn == "LE" else 0.0
        plain_ok(a, b, what, sd)
    elif fn == "ELBND":
        e = numbers(case, "d", N)
        a = D.ELBND(v, e, function=case["agg"])
        b = D.ELBND(r, represent(e, case["dd"], case["ld"]), function=case["agg"])
        plain_ok(a, b, what + " and %s/%s errors" % (case["dd"], case["ld"]), 1e-12)
    elif fn == "ESE":
        try:
            a = D.ESE(v, window=case["m"])
        except Exception:                                           # the fit of SciPy gives these numbers up
            return {"labels": lab, "nontrivial": False}
        b = D.ESE(r, window=case["m"])
        plain_ok(a, b, what, 1e-6)
    else:
        q = np.linalg.eigvalsh(np.cov(v.T))
        if fn == "PCAc":
            a, b = P.PCA_components(v), P.PCA_components(r)
            plain_ok(a, b, what, 1e-9)
        elif fn == "PCA":
            a, b = P.PCA(v, case["k"]), P.PCA(r, case["k"])
            if np.min(np.diff(q)) < 1e-4 * q[-1]:
                return {"labels": lab + ["equal eigenvalues"], "nontrivial": False}
            upto(a, b, what)
        else:
            sw = sum(np.cov(v[labels == c].T, bias=True) * np.sum(labels == c) for c in set(labels.tolist()))
            s = np.linalg.eigvalsh(sw)
            if not s[0] > 1e-4 * s[-1]:
                return {"labels": lab + ["degenerate"], "nontrivial": False}
            dl = case["dd"] if np.dtype(case["dd"]).kind != "f" else "int64"
            labels = classes(case["names"], dl, case["seed"], case["cl"])[labels]
            la = represent(labels.astype(float), dl, case["ld"] if case["ld"] not in ("broadcast",) else "list")
            a0 = P.LDA_discriminants(v, labels)
            if fn == "LDAc":
                b = P.LDA_discriminants(r, la)
                a = a0
                plain_ok(a, b, what, 1e-7)
            else:
                a, b = P.LDA(v, labels, case["k"]), P.LDA(r, la, case["k"])
                g = np.sort(a0)[::-1]
                g = g[:case["k"]] - g[1:case["k"] + 1]
                if not np.min(g) > 1e-3 * np.max(np.abs(a0)):
                    return {"labels": lab + ["equal eigenvalues"], "nontrivial": False}
                upto(a, b, what)
    return {"labels": lab, "nontrivial": not plain and bool(np.any(np.asarray(a) != 0))}


def classes(how, dtype, seed, cl):
    """Numbers that the classes are called by, any that the type holds exactly."""
    top = int(DTYPES[dtype])
    low = 0 if np.dtype(dtype).kind == "u" else -top
    rs = np.random.RandomState(seed % 2 ** 31)
    if how == "count":
        return np.arange(cl)
    if how == "step":
        steps = [s for s in (256, 65536, 128, 1000, 32, 2 ** 31) if s * cl <= top] or [top // cl]
        return np.arange(cl) * steps[seed % len(steps)]
    if how == "high":
        return top - np.arange(cl)[::-1]
    if how == "neg":
        return max(low, -100) + np.arange(cl)
    return np.sort(rs.choice(np.unique(np.linspace(low, top, 97).astype(np.int64)), cl, replace=False))


def upto(a, b, what):
    """The same columns, each up to its sign."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape == b.shape:
        sg = np.where(np.sum(a * b, axis=0) < 0, -1.0, 1.0)
        b = b * sg
    plain_ok(a, b, what, 1e-7)


def check_net(case, what):
    N, n, out = case["N"], case["n"], case["out"]
    x = numbers(case, "x", (N, n))
    d = numbers(case, "d", (N,) if out == 1 else (N, out))
    rx = represent(x, case["dx"], case["lx"])
    mode = case["mode"]
    ld = case["ld"] if case["ld"] not in SEQ or mode == "online" else "strided"     # targets are arrays
    rd = represent(d, case["dd"], ld)

    def go(xx, dd):
        np.random.seed(case["seed"] % 2 ** 32)
        nn = pa.ann.NetworkMLP(case["layers"], n, outputs=out, activation=case["act"], mu=0.01)
        R = []
        if mode == "train":
            R += list(nn.train(xx, dd, epochs=2))
        elif mode == "test":
            R.append(nn.test(xx, dd))
        elif mode == "run":
            R.append(nn.run(xx))
        else:
            for k in range(N):
                R.append(np.array(nn.predict(xx[k])))
                R.append(np.array(nn.update(dd[k])))
        R.append(nn.run(xx))
        R += [np.array(l.w) for l in nn.layers] + [np.array(nn.w)]
        return R

    rs = np.random.RandomState(3)
    A, B = go(x, d), go(rx, rd)
    P = go(x * (1 + 1e-13 * rs.uniform(0.5, 1.5, x.shape) * rs.choice([-1, 1], x.shape)), d * (1 + 1e-13 * rs.uniform(0.5, 1.5, d.shape) * rs.choice([-1, 1], d.shape)))
    for a, b, p in zip(A, B, P):
        a, p = np.asarray(a, dtype=float), np.asarray(p, dtype=float)
        m = np.max(np.abs(a[np.isfinite(a)]), initial=0)
        w = np.max(np.abs(a - p)[np.isfinite(a - p)], initial=0)
        plain_ok(a, b, "network (%s), %s, %s/%s targets" % (mode, what, case["dd"], ld), 1e-9 * m + 1e3 * w + np.zeros(a.shape))
    return {"nontrivial": bool(np.any(x)) and (case["dx"], case["lx"]) != ("float64", "c")}
