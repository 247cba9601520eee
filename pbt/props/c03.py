"""C03: predicting never changes the filter."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds
from ..lib import Violation

ID = "C03"
BUDGET = {"quick": 2250, "thorough": 9000}
RULE = ("case = one history (run / adapt / online calls) given to two fresh filters, one of which also answers extra "
        "predictions (other vectors, repeated, lists, arrays) at drawn points; everything observed has to agree. "
        "Non-trivial: at least one extra prediction is followed by learning that moves the weights")


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(hi=1500))
    N = case["N"]
    pts = draw(st.lists(st.integers(0, N), min_size=1, max_size=4))
    case["pred"] = [{"at": p, "reps": draw(st.sampled_from([1, 2, 3, 1, 7])),
                     "v": draw(st.sampled_from(["next", "same", "other", "big", "zero", "ints", "nan", "inf"])),
                     "as": draw(st.sampled_from(["array", "list", "tuple"])),
                     "seed": draw(gen.SEEDS)} for p in pts]
    case["buf"] = draw(st.booleans())       # all array predictions through one buffer
    if draw(st.integers(0, 4)) == 0:
        case["every"] = draw(st.sampled_from([1, 2, 3]))
    return case


def cases(tier):
    return cases_(tier)


def vector(p, x, at, n):
    rs = np.random.RandomState(p["seed"])
    v = p["v"]
    if v == "next" and at < len(x):
        return x[at].copy()
    if v == "same" and at > 0:
        return x[at - 1].copy()
    if v == "big":
        return rs.normal(0, 1e6, n)
    if v in ("nan", "inf"):
        out = rs.normal(0, 1, n)
        out[rs.randint(0, n)] = {"nan": np.nan, "inf": [np.inf, -np.inf][p["seed"] % 2]}[v]
        return out
    if v == "zero":
        return np.zeros(n)
    if v == "ints":
        return rs.randint(-5, 6, n)
    return rs.normal(0, 1, n)


def cut(ops, pts):
    """The same calls, cut at the given sample positions."""
    out, at = [], 0
    for mode, ln in ops:
        b = at + ln
        inner = sorted({p for p in pts if at < p < b})
        for lo, hi in zip([at] + inner, inner + [b]):
            out.append([mode, hi - lo])
        at = b
    return out


def check(case):
    c, x, d, opts = hist.prepare(case)
    n, N = c["n"], len(d)
    preds = list(case["pred"])
    if "every" in case:
        preds += [dict(case["pred"][0], at=k) for k in range(0, min(N, 60), case["every"])]
    ops = cut(case["ops"], [p["at"] for p in preds])
    plain = kinds.make(c, opts)
    asked = kinds.make(c, opts)
    A, B = hist.Rec(N, n), hist.Rec(N, n)
    at, moved = 0, False
    buf = np.zeros(n)

    def ask():
        for p in preds:
            if p["at"] != at:
                continue
            v = vector(p, x, at, n)
            if case.get("buf") and p["as"] == "array":
                buf[:] = v
                v = buf
            arg = v if p["as"] == "array" else (v.tolist() if p["as"] == "list" else tuple(v.tolist()))
            keep = np.array(v, dtype=float)
            w = np.array(asked.w, dtype=float)
            got = []
            for _ in range(p["reps"]):
                got.append(float(asked.predict(arg)))
                if not np.array_equal(w, asked.w, equal_nan=True):
                    raise Violation("predict changed the weights from %s to %s" % (hist.short(w), hist.short(asked.w)))
            if not np.array_equal(np.array(arg, dtype=float), keep, equal_nan=True):
                raise Violation("predict changed its input")
            mag = float(np.sum(np.abs(w * keep))) + abs(got[0])
            if not np.isfinite(mag) or mag > 1e200:
                continue
            for g in got[1:]:
                if not abs(g - got[0]) <= 1e-12 * mag:
                    raise Violation("repeating a prediction gives %.17g after %.17g" % (g, got[0]))
            if c["kind"] != "OCNLMS":
                if not abs(got[0] - float(np.sum(w * keep))) <= 1e-11 * mag + 1e-300:
                    raise Violation("prediction %.17g is not the dot product of weights and input %.17g"
                                    % (got[0], float(np.sum(w * keep))))

    ask()
    for op in ops:
        hist.drive(plain, [op], x, d, A, at)
        hist.drive(asked, [op], x, d, B, at)
        at += op[1]
        moved = moved or not np.array_equal(A.end, A.w[0])
        ask()
    xp, dp = hist.perturbed(c, x, d)
    P = hist.drive(kinds.make(c, opts), ops, xp, dp)
    wt, H = hist.tolerance(A, P)
    H = min(H, hist.tie_horizon(c, opts, x, d, A, B))
    hist.same(A, B, x, d, wt, H, "%s without and with extra predictions" % c["kind"])
    early = any(p["at"] < N for p in preds)
    return {"labels": common.labels(case), "nontrivial": moved and early}
