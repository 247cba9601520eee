"""C10: stable step sizes never move a filter away from the true system."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds
from ..lib import Violation

ID = "C10"
STAB = ["NLMS", "AP", "LMS", "Llncosh", "GMCC", "LMF", "NLMF"]
FIXED = [k for k in kinds.KINDS if k != "OCNLMS"]
BUDGET = {"quick": 2120, "thorough": 9000}
RULE = ("case = noise-free data d = w*.x for a drawn w* and (a) a filter with a step size in the stability range: the "
        "distance to w* may not grow at any sample; (b) integer data and a filter that starts at w*: it may not move; "
        "(c) exciting data: NLMS, AP, RLS have to converge. Non-trivial: (a) weights move, (b) inputs are not all zero, "
        "(c) always")


@st.composite
def cases_(draw, tier):
    what = draw(st.sampled_from(["stab"] * 6 + ["fix", "fix", "conv"]))
    if what == "stab":
        case = draw(common.hist_case(STAB, hi=2000, data_kw={"tpats": ["exact"]}))
        case["data"].pop("D", None)
        case["cfg"].pop("rel", None)
        c = case["cfg"]
        if c["kind"] == "LMS" or draw(st.integers(0, 2)):
            if c["kind"] not in ("NLMS", "AP"):
                c["opts"].pop("mu", None)
                c["rel"] = draw(st.sampled_from([1.0, 0.5, 1.9, 2.0, 1.99, 0.1, 0.01, 1.5]))
    elif what == "fix":
        case = draw(common.hist_case(FIXED, hi=600))
        case["data"] = {"seed": draw(gen.SEEDS), "x": draw(st.sampled_from(["ints", "binary", "zeros", "ints"])),
                        "t": "exact", "xs": draw(st.sampled_from([1.0, 0.5, 64.0])), "ds": 1.0}
        case["cfg"]["w"] = [float(v) for v in
                            draw(st.lists(st.integers(-4, 4), min_size=case["cfg"]["n"], max_size=case["cfg"]["n"]))]
    else:
        n = gen.tail(draw, 1, 6, 20)
        kind = draw(st.sampled_from(["NLMS", "AP", "RLS"]))
        o = {"mu": draw(st.sampled_from([0.2, 0.5, 1.0, 1.5, 1.8] if kind != "RLS" else [0.95, 0.99, 1.0, 0.9]))}
        if kind == "NLMS":
            o["eps"] = draw(st.sampled_from([1e-3, 1e-6]))
        elif kind == "AP":
            o["order"] = draw(st.integers(1, n))
            o["ifc"] = draw(st.sampled_from([1e-3, 1e-4]))
        else:
            o["eps"] = draw(st.sampled_from([1e-2, 1e-3, 0.1]))
        case = {"cfg": {"kind": kind, "n": n, "opts": o, "w": draw(kinds.weights(n))},
                "data": {"seed": draw(gen.SEEDS)}}
    case["what"] = what
    case["wseed"] = draw(gen.SEEDS)
    case["wsc"] = draw(st.sampled_from([1.0, 1e-3, 100.0, 1e-6, 10.0]))
    return case


def cases(tier):
    return cases_(tier)


def check(case):
    return {"stab": check_stab, "fix": check_fix, "conv": check_conv}[case["what"]](case)


def target(case):
    n = case["cfg"]["n"]
    return np.random.RandomState(case["wseed"]).normal(0, 1, n) * case["wsc"]


def inputs(case):
    c, N = case["cfg"], case["N"]
    if "X" in case["data"]:
        x = np.array(case["data"]["X"], dtype=float).reshape(N, c["n"])
    else:
        x = gen.expand_x(case["data"], N, c["n"])
    return kinds.guard(c, x)


def factor(kind, o, e, p):
    """Effective step of a sample: the part of the error along x that is taken back (2 is the limit)."""
    e = abs(e)
    mu = o["mu"]
    if kind == "LMS":
        return mu * p
    if kind == "NLMS":
        return mu * p / (o["eps"] + p)
    if kind == "LMF":
        return mu * e * e * p
    if kind == "NLMF":
        return mu * e * e * p / (o["eps"] + p)
    if kind == "Llncosh":
        return mu * (np.tanh(o["lambd"] * e) / e if e > 0 else o["lambd"]) * p
    if kind == "GMCC":
        if e == 0:
            return 0.0 if o["alpha"] > 2 else (np.inf if o["alpha"] < 2 else mu * o["lambd"] * 2 * p)
        return mu * o["lambd"] * o["alpha"] * np.exp(-o["lambd"] * e ** o["alpha"]) * e ** (o["alpha"] - 2) * p


def check_stab(case):
    c = case["cfg"]
    kind, n = c["kind"], c["n"]
    x = inputs(case)
    ws = target(case)
    d = x @ ws
    opts = kinds.options(c, x, d)
    o = dict(kinds.DEFAULTS[kind], **opts)
    R = hist.drive(kinds.make(c, opts), case["ops"], x, d)
    W = np.vstack([R.w, R.end[None, :]])
    m = hist.finite_until(W) - 1
    tested = 0
    for k in range(m):
        p = float(x[k] @ x[k])
        a, b = np.linalg.norm(W[k] - ws), np.linalg.norm(W[k + 1] - ws)
        wn = np.linalg.norm(W[k]) + np.linalg.norm(ws)
        if kind == "AP":
            if not 0 <= o["mu"] <= 2:
                return {"nontrivial": False}
            lo = max(0, k - o["order"] + 1)
            s = np.linalg.svd(x[lo:k + 1], compute_uv=False)
            kappa = (s[0] ** 2 + o["ifc"]) / o["ifc"]
            tol = 1e-12 * a + 1e-14 * (1 + kappa) * n * o["order"] * wn
            if tol > 1e-3 * a and tol > 1e-6 * wn:
                continue
        else:
            e = d[k] - W[k] @ x[k]
            unc = 2e-16 * n * (np.abs(x[k]) @ (np.abs(W[k]) + np.abs(ws)))
            fs = [factor(kind, o, v, p) for v in (e - unc, e, e + unc)]
            if not max(fs) <= 2.0 * (1 + 1e-12):
                continue
            tol = 1e-12 * a + 1e-14 * n * wn
            if p < 1e-280:
                continue
        tested += bool(np.any(W[k] != W[k + 1]))
        if not b <= a + tol:
            raise Violation("%s: sample %d of %d (noise-free, step in the stable range) takes the weights from distance "
                            "%.17g of the true ones to %.17g" % (kind, k, len(d), a, b))
    return {"labels": common.labels(case) + ["stability"], "nontrivial": tested > 0}


def check_fix(case):
    c = case["cfg"]
    x = inputs(case)
    ws = np.array(c["w"], dtype=float)
    d = x @ ws                                    # exact: small integers
    opts = kinds.options(c, x, d)
    R = hist.drive(kinds.make(c, opts), case["ops"], x, d)
    W = np.vstack([R.w, R.end[None, :]])
    sc = np.max(np.abs(ws)) + 1e-300
    bad = np.flatnonzero(~np.all(np.abs(W - ws) <= 1e-12 * sc, axis=1))
    if len(bad):
        raise Violation("%s starts at the true weights %s of noise-free data and has %s before sample %d of %d"
                        % (c["kind"], hist.short(ws), hist.short(W[bad[0]]), bad[0], len(d)))
    return {"labels": common.labels(case) + ["fixed point"], "nontrivial": bool(np.any(d != 0))}


def check_conv(case):
    c = case["cfg"]
    n, o, kind = c["n"], c["opts"], c["kind"]
    mu = o["mu"]
    N = 30 + 25 * n if kind == "RLS" else int(40 * n / (mu * (2 - mu))) + 30
    x = np.random.RandomState(case["data"]["seed"]).normal(0, 1, (N, n))
    ws = target(case)
    d = x @ ws
    f = kinds.make(c, o)
    a = np.linalg.norm(f.w - ws)
    f.run(d, x)
    b = np.linalg.norm(f.w - ws)
    if not b <= 2e-2 * a + 1e-9 * np.linalg.norm(ws):
        raise Violation("%s: %d noise-free samples of Gaussian data bring the weights only from distance %.6g to %.6g "
                        "of the true ones" % (kind, N, a, b))
    return {"labels": ["convergence", kinds.label(c)], "nontrivial": True}
