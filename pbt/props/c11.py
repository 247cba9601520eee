"""C11: filters treat all input channels alike and are odd in the data."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds
from ..lib import Violation

ID = "C11"
BUDGET = {"quick": 2250, "thorough": 9000}
RULE = ("case = one history given to two fresh filters, the second with permuted channels and permuted initial weights, "
        "with flipped channel signs, with negated targets and initial weights, or with further channels that are always "
        "zero (or several of these); results are mapped back and compared within a tolerance measured by a perturbed filter. Non-trivial: the transformation is not "
        "the identity on the data and the weights move")


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(hi=1000))
    n = case["cfg"]["n"]
    if case["cfg"]["w"] == "random":
        case["cfg"]["w"] = {"seed": draw(gen.SEEDS), "s": 0.5}
    case["perm"] = draw(st.permutations(list(range(n)))) if draw(st.booleans()) and n > 1 else None
    case["neg"] = draw(st.booleans())
    if case["perm"] is None and not case["neg"] or draw(st.integers(0, 2)) == 0:
        case["flip"] = draw(st.lists(st.sampled_from([-1, 1]), min_size=n, max_size=n)) if n <= 40 else [-1] * n
    else:
        case["flip"] = None
    if draw(st.integers(0, 2)) == 0:      # silent channels
        case["pad"] = [draw(st.integers(0, n)), draw(st.integers(1, 3)), draw(st.sampled_from([0.0, 1.0, -2.0]))]
    return case


def cases(tier):
    return cases_(tier)


def check(case):
    c, x, d, opts = hist.prepare(case)
    n = c["n"]
    w0 = kinds.start_weights(c)
    perm = np.array(case["perm"]) if case["perm"] is not None else np.arange(n)
    flip = np.array(case["flip"] if case["flip"] is not None else [1] * n, dtype=float)
    sg = -1.0 if case["neg"] else 1.0
    x2 = (x * flip)[:, perm]
    d2 = sg * d
    c1 = dict(c, w=w0.tolist())
    c2 = dict(c, w=(sg * w0 * flip)[perm].tolist())
    keep = np.arange(n)
    pad = case.get("pad")
    if pad:
        i, m, pw = pad
        silent = np.arange(i, i + m)
        keep = np.setdiff1d(np.arange(n + m), silent)
        big = np.zeros((len(d), n + m))
        big[:, keep] = x2
        wb = np.full(n + m, pw)
        wb[keep] = c2["w"]
        x2, c2 = big, dict(c2, n=n + m, w=wb.tolist())
    A = hist.drive(kinds.make(c1, opts), case["ops"], x, d)
    B = hist.drive(kinds.make(c2, opts), case["ops"], x2, d2)
    xp, dp = hist.perturbed(c, x, d)
    P = hist.drive(kinds.make(c1, opts), case["ops"], xp, dp)
    xq, dq = hist.perturbed(c, x, d, seed=7)
    Q = hist.drive(kinds.make(c1, opts), case["ops"], xq, dq)
    if pad:
        m = hist.finite_until(B.w, A.w)
        bad = np.flatnonzero(np.any(B.w[:m][:, silent] != pw, axis=1))
        if len(bad):
            raise Violation("%s: the weight of a channel that is always zero changes from %g to %s (sample %d of %d)"
                            % (c["kind"], pw, hist.short(B.w[bad[0]][silent]), bad[0], len(d)))
        B.w, B.end = B.w[:, keep], B.end[keep]
    inv = np.argsort(perm)
    B.w = sg * B.w[:, inv] * flip
    B.end = sg * B.end[inv] * flip
    B.y, B.e = sg * B.y, sg * B.e
    wt, H = hist.tolerance(A, P)
    wq, Hq = hist.tolerance(A, Q)
    H = min(H, Hq, hist.tie_horizon(c, opts, x, d, A, B))
    mu = opts.get("mu", kinds.DEFAULTS[c["kind"]]["mu"]) if c["kind"] == "RLS" else 1
    if pad and mu < 1:          # the matrix of RLS grows by 1 / mu per sample in a silent direction, up to infinity
        H = min(H, int(280 / -np.log10(mu)))
    hist.same(A, B, x, d, np.maximum(wt, wq), H,
              "%s on data and on the same data with %s" % (c["kind"], " and ".join(
                  (["permuted channels"] if case["perm"] is not None else [])
                  + (["flipped channels"] if case["flip"] is not None else [])
                  + (["negated targets and weights"] if case["neg"] else [])
                  + (["channels that are always zero"] if pad else []))))
    lab = common.labels(case) + (["horizon cut"] if H < len(d) else [])
    moved = bool(np.any(A.w[:H] != A.w[:1])) or len(d) == 1 and bool(np.any(A.end != A.w[0]))
    return {"labels": lab + (["silent channels"] if pad else []),
            "nontrivial": moved and not (np.array_equal(x, x2) and np.array_equal(d, d2))}
