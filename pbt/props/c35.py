"""C35: filters do not depend on the units of inputs and targets."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds
from ..lib import Violation  # noqa: F401

ID = "C35"
BUDGET = {"quick": 1300, "thorough": 9000}
RULE = ("case = one history given to two filters, the second with targets and inputs in other units (multiplied by powers "
        "of two from 2^-36 to 2^36) and with initial weights and options converted as the update formulas say; results are "
        "converted back and compared within a tolerance measured by a perturbed filter. Non-trivial: some unit differs "
        "and the weights move")
UNITS = [1, -1, 2, 3, -3, 7, -7, 10, -10, 14, -14, 17, -17, 20, -20, 27, -27, 33, -33, 36, -36]
XP = [p for p in gen.XPATS]


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(hi=800, data_kw={}))
    if "X" in case["data"]:
        case["data"] = draw(gen.data_spec())
    c = case["cfg"]
    if c["w"] == "random" or isinstance(c["w"], list):
        c["w"] = {"seed": draw(gen.SEEDS), "s": draw(st.sampled_from([1.0, 0.1, 10.0]))}
    u = st.sampled_from(UNITS)
    what = draw(st.sampled_from(["d", "x", "both", "d", "x"]))
    case["ud"] = draw(u) if what != "x" else 0
    case["ux"] = draw(u) if what != "d" else 0
    return case


def cases(tier):
    return cases_(tier)


def converted(kind, o, a, b):
    """Options of the filter whose targets are a times and inputs b times those of the first one.

    The weights are a / b times those of the first filter.
    """
    o = dict(o)
    q = {}
    if kind in ("LMS",):
        q["mu"] = b ** -2
    elif kind in ("NLMS", "GNGD", "OCNLMS"):
        q["eps"] = b ** 2
        if kind == "GNGD":
            q["ro"] = b ** 4 / a ** 2
    elif kind == "RLS":
        q["eps"] = b ** 2
    elif kind == "AP":
        q["ifc"] = b ** 2
    elif kind == "LMF":
        q["mu"] = b ** -2 / a ** 2
    elif kind == "NLMF":
        q["mu"] = a ** -2
        q["eps"] = b ** 2
    elif kind == "SSLMS":
        q["mu"] = a / b
    elif kind == "NSSLMS":
        q["mu"] = a * b
        q["eps"] = b ** 2
    elif kind == "Llncosh":
        q["lambd"] = 1 / a
        q["mu"] = a / b ** 2
    elif kind == "GMCC":
        q["lambd"] = a ** -float(o["alpha"])
        q["mu"] = a ** 2 / b ** 2
    else:
        q["mu"] = b ** -2
        q["ro"] = b ** -4 / a ** 2
    for k, v in q.items():
        o[k] = float(o[k] * v)
    return o


def check(case):
    c, x, d, opts = hist.prepare(case)
    kind = c["kind"]
    o1 = dict(kinds.DEFAULTS[kind], **opts)
    a, b = 2.0 ** case["ud"], 2.0 ** case["ux"]
    o2 = converted(kind, o1, a, b)
    lab = common.labels(case)
    if not all(v == 0 or 1e-90 < abs(v) < 1e90 for v in list(o2.values()) + list(o1.values())):
        return {"labels": lab + ["options out of range"], "nontrivial": False}
    x = np.where(np.abs(x) < 1e-25, 0.0, x)
    d = np.where(np.abs(d) < 1e-25, 0.0, d)
    w0 = kinds.start_weights(c)
    c1, c2 = dict(c, w=w0.tolist()), dict(c, w=(w0 * (a / b)).tolist())
    A = hist.drive(kinds.make(c1, o1), case["ops"], x, d)
    B = hist.drive(kinds.make(c2, o2), case["ops"], x * b, d * a)
    P = hist.drive(kinds.make(c1, o1), case["ops"], *hist.perturbed(c, x, d))
    Q = hist.drive(kinds.make(c1, o1), case["ops"], *hist.perturbed(c, x, d, seed=7))
    B.w, B.end, B.y, B.e = B.w * (b / a), B.end * (b / a), B.y / a, B.e / a
    wt, H = hist.tolerance(A, P)
    wq, Hq = hist.tolerance(A, Q)
    H = min(H, Hq, hist.tie_horizon(c, opts, x, d, A, B))
    # where intermediate results leave the range of numbers nothing is compared
    big = np.flatnonzero(np.abs(A.e) >= 1e12)
    ws = np.max(np.abs(A.w), axis=1)
    bw = np.flatnonzero(~(ws < 1e12))
    for z in (big, bw):
        if len(z):
            H = min(H, int(z[0]))
    hist.same(A, B, x, d, np.maximum(wt, wq), H,
              "%s on data and on the same data with targets times 2^%d and inputs times 2^%d (options converted)"
              % (kind, case["ud"], case["ux"]))
    moved = bool(np.any(A.w[:H] != A.w[:1])) or len(d) == 1 and bool(np.any(A.end != A.w[0]))
    lab.append("units:" + ("both" if case["ud"] and case["ux"] else "targets" if case["ud"] else "inputs"))
    return {"labels": lab + (["horizon cut"] if H < len(d) else []), "nontrivial": moved}
