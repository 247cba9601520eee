"""C39: an update moves the weights along the input, towards the target, and not at all without error or input."""
import numpy as np
from hypothesis import strategies as st

from .. import common, hist, kinds
from ..lib import Violation

ID = "C39"
BUDGET = {"quick": 2200, "thorough": 9000}
KINDS = [k for k in kinds.KINDS if k != "OCNLMS"]
ALONG = ["LMS", "NLMS", "LMF", "NLMF", "GMCC", "Llncosh", "GNGD", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"]
SIGNS = ["SSLMS", "NSSLMS"]
TOWARDS = ["LMS", "NLMS", "LMF", "NLMF", "GMCC", "Llncosh", "SSLMS", "NSSLMS"]     # with steps that are never negative
RULE = ("case = a history with noisy or noise-free data; at every sample the observed change of the weights has to lie along "
        "the input (for sign algorithms along its signs, for AP in the span of the last inputs), point towards the target, "
        "keep channels with zero input, vanish for zero errors and zero inputs and, with a normalised step in the "
        "stability range, not enlarge the error of that sample. Non-trivial: the weights move")


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(KINDS, hi=1500))
    if "X" not in case["data"] and draw(st.integers(0, 3)) == 0:
        case["data"]["x"] = draw(st.sampled_from(["ints", "sparse", "binary", "onehot", "bursts"]))
        case["data"]["t"] = draw(st.sampled_from(["exact", "own", "zeros", "ints"]))
        if draw(st.booleans()):         # short numbers, errors that are exactly zero
            case["data"].update(x=draw(st.sampled_from(["ints", "binary"])), xs=1.0, ds=1.0, t="ints")
            case["data"].pop("xo", None)
            case["data"].pop("do", None)
            case["cfg"]["w"] = draw(st.sampled_from(["zeros", [1.0] * case["cfg"]["n"]]))
            if case["cfg"]["kind"] in SIGNS + ["LMS"]:
                case["cfg"].pop("rel", None)
                case["cfg"]["opts"]["mu"] = draw(st.sampled_from([1.0, 0.5, 0.25, 0.125]))
    return case


def cases(tier):
    return cases_(tier)


def exact(*arrays):
    """Whether these numbers are so short that their products and sums are computed without rounding."""
    return all(bool(np.all(np.abs(np.asarray(a) * 4096) < 2 ** 23) and np.all(np.asarray(a) * 4096 % 1 == 0)) for a in arrays)


def check(case):
    c, x, d, opts = hist.prepare(case)
    kind, n = c["kind"], c["n"]
    o = dict(kinds.DEFAULTS[kind], **opts)
    R = hist.drive(kinds.make(c, opts), case["ops"], x, d)
    W = np.vstack([R.w, R.end[None, :]])
    m = hist.finite_until(W) - 1
    if kind in TOWARDS and o.get("eps", 1) > 0 and 0 <= m < len(d):
        hist.broken(kind, W, m, x, d)
    moved = 0
    lab = set()
    for k in range(m):
        w, dw, v = W[k], W[k + 1] - W[k], x[k]
        ws = np.max(np.abs(w)) + np.max(np.abs(W[k + 1]))
        r = 3e-16 * ws + 1e-300                         # rounding of the difference itself
        y = float(w @ v)
        unc = 2e-16 * (n + 2) * (np.abs(w) @ np.abs(v) + abs(d[k])) + 1e-300
        e = d[k] - y
        size = np.max(np.abs(dw))
        if size == 0:
            continue
        moved += 1

        def bad(msg):
            raise Violation("%s, sample %d of %d (input %s, error %.6g): the change of the weights %s %s"
                            % (kind, k, len(d), hist.short(v), e, hist.short(dw), msg))

        if kind == "AP":
            lo = max(0, k - o["order"] + 1)
            B = x[lo:k + 1]
            B = B[np.any(B != 0, axis=1)]
            if not len(B):
                bad("is not zero though all of the last %d inputs are" % (k + 1 - lo))
            s = np.linalg.svd(B, compute_uv=False)
            if not s[-1] > 1e-6 * s[0] or len(B) >= n:
                continue
            res = dw - B.T @ np.linalg.lstsq(B.T, dw, rcond=None)[0]
            lab.add("span")
            if not np.max(np.abs(res)) <= 1e-7 * size + 10 * n * r:
                bad("does not lie in the span of the last %d inputs" % len(B))
            continue
        if not np.any(v):
            bad("is not zero for a zero input")
        if np.any(dw[v == 0] != 0) and kind != "RLS":
            bad("moves a channel with zero input")
        if e == 0 and (unc < 1e-290 or exact(w, v, d[k])):
            bad("is not zero for a zero error")
        u = np.sign(v) if kind in SIGNS else v
        if kind == "RLS":
            continue
        s = float(dw @ u) / float(u @ u) if u @ u > 0 else 0.0
        if not np.isfinite(s) or u @ u < 1e-250:
            continue
        if not np.max(np.abs(dw - s * u)) <= 1e-11 * size + 3 * r * n:
            bad("is not along the input%s" % ("'s signs" if kind in SIGNS else ""))
        lab.add("along")
        if kind in TOWARDS and o["mu"] >= 0 and abs(e) > 3 * unc and size > 10 * r:
            lab.add("towards")
            if s * e < 0:
                bad("points away from the target")
        if kind == "NLMS" and 0 <= o["mu"] <= 2 and o["eps"] >= 0:
            after = d[k] - float(W[k + 1] @ v)
            lab.add("error not enlarged")
            if not abs(after) <= abs(e) * (1 + 1e-12) + 3 * unc + n * r * np.sum(np.abs(v)):
                bad("enlarges the error to %.6g" % after)
    return {"labels": common.labels(case) + sorted(lab), "nontrivial": moved > 0}


