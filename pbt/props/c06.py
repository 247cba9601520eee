"""C06: variable-step filters follow their published recursions over all history."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds, refs
from ..lib import LD, Violation
from .c05 import errors

ID = "C06"
KIND = ["GNGD", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"]
BUDGET = {"quick": 2250, "thorough": 9000}
RULE = ("case = (kind, size, options, initial weights, data, history of run/adapt/online calls); the documented "
        "recursion is run in extended precision along the observed errors over the whole history (twice, the second "
        "time perturbed, which gives the tolerance) and predicts every weight increment. Non-trivial: at least two "
        "non-zero increments compared and the step size or regularisation moved. Some cases have short numbers chosen so that "
        "the recursion is computed without rounding (errors and step sizes that are exactly zero included)")


@st.composite
def exact_cases(draw):
    """Short inputs, errors and options; the targets follow from the errors."""
    kind = draw(st.sampled_from(KIND))
    n, N = draw(st.integers(1, 3)), draw(st.integers(2, 9))
    pick = st.sampled_from
    X = [[draw(pick([0, 1, 1, -1, 2])) for _ in range(n)] for _ in range(N)]
    if draw(st.integers(0, 3)) == 0:
        X = [draw(pick(X)) for _ in X]
    opts = {"mu": draw(pick([0.5, 1.0, 0.25, 2.0])), "ro": draw(pick([0.5, 0.25, 1.0, 0.125]))}
    if kind == "VSLMS_Ang":
        opts["a"] = draw(pick([0.0, 0.5, 1.0]))
    if kind == "GNGD":
        opts["eps"] = draw(pick([1.0, 0.5, 2.0]))
    return {"exact": True, "kind": kind, "n": n, "X": X, "E": [draw(pick([0, 1, -1, 1, 0.5, -2, 2])) for _ in range(N)],
            "opts": opts, "w": [draw(pick([0, 0, 1, -0.5])) for _ in range(n)], "ops": draw(gen.ops(N, common.MODES))}


def cases(tier):
    usual = common.hist_case(KIND, hi=3000 if tier == "thorough" else 1000)
    return st.integers(0, 7).flatmap(lambda i: exact_cases() if i == 5 else usual)


def dot(a, b):
    return sum((p * q for p, q in zip(a, b)), Fraction(0))


def short_number(v):
    """Whether a sum or product of a few such numbers has no rounding."""
    return v == 0 or v.denominator & (v.denominator - 1) == 0 and abs(v.numerator) < 2 ** 24 and v.denominator < 2 ** 24


def check_exact(case):
    kind, n, N = case["kind"], case["n"], len(case["X"])
    F = Fraction
    w = [F(v) for v in case["w"]]
    o = {k: F(v) for k, v in case["opts"].items()}
    mu, eps = o["mu"], o.get("eps")
    le, lx, fi = F(0), [F(0)] * n, [F(0)] * n
    rows, d = [w], []
    zero = False
    for x, e in zip([[F(v) for v in r] for r in case["X"]], [F(v) for v in case["E"]]):
        t = dot(w, x) + e
        if kind == "GNGD":
            p = dot(lx, lx) + eps
            if abs(p) < F(1, 100):
                break
            more = [p, p ** 2]
            eps = eps - o["ro"] * mu * e * le * dot(x, lx) / p ** 2
            q = eps + dot(x, x)
            if abs(q) < F(1, 100):
                break
            step = mu / q
            more += [1 / p ** 2, q, 1 / q, eps]
        else:
            if kind == "VSLMS_Ang":
                fi = [o["a"] * f + le * v for f, v in zip(fi, lx)]
            elif kind == "VSLMS_Benveniste":
                g = mu * dot(lx, fi)
                fi = [f - g * v + le * u for f, v, u in zip(fi, lx, lx)]
            new = mu + o["ro"] * e * (le * dot(lx, x) if kind == "VSLMS_Mathews" else dot(lx, fi))
            more = [mu, new] + [mu * a * b for a in lx for b in lx]
            step = mu = new
            zero = zero or mu == 0
        w = [v + step * e * u for v, u in zip(w, x)]
        le, lx = e, x
        if not all(short_number(v) for v in w + fi + more + [t, step, e * le]):
            break
        d.append(float(t))
        rows.append(w)
    m = len(d)
    f = kinds.cls(kind)(n, w=[float(v) for v in case["w"]], **case["opts"])
    d = np.array(d + [0.0] * (N - m))
    R = hist.drive(f, case["ops"], np.array(case["X"], dtype=float), d)
    W = np.vstack([R.w, R.end[None, :]])
    # (not bit by bit: who computes |x|^2 as the square of a norm rounds)
    tol = 1e-7 * (1 + max(abs(float(v)) for r in rows for v in r))
    for k in range(m + 1):
        if not np.all(np.abs(W[k] - [float(v) for v in rows[k]]) <= tol):
            raise Violation("%s %s with inputs %s, targets %s: the weights before sample %d are %s, exactly calculated %s"
                            % (kind, case["opts"], case["X"][:k], d[:k].tolist(), k, W[k].tolist(), [float(v) for v in rows[k]]))
    return {"labels": ["exact", "kind:" + kind] + (["step size became zero"] if zero else []),
            "nontrivial": m > 1 and rows[-1] != rows[0]}


def state(ref):
    return np.atleast_1d(ref.ceps if ref.kind == "GNGD" else ref.cmu)


def check(case):
    if case.get("exact"):
        return check_exact(case)
    c, x, d, opts = hist.prepare(case)
    R = hist.drive(kinds.make(c, opts), case["ops"], x, d)
    W = np.vstack([R.w, R.end[None, :]])
    m = hist.finite_until(W) - 1
    if m < 1:
        return {"labels": common.labels(case) + ["diverged at once"], "nontrivial": False}
    e, unc, miss = errors(x, d, R, m)
    ref = refs.Ref(c["kind"], c["n"], opts)
    alts = [refs.Ref(c["kind"], c["n"], opts) for _ in range(2)]
    # not plain signs: perturbations of equal size may cancel just where the recursion cancels
    rs = np.random.RandomState(5)
    sg = [rs.choice([-1.0, 1.0], (m, c["n"] + 1)) * rs.uniform(0.5, 1.5, (m, c["n"] + 1)) for _ in alts]
    moved, worst, last = 0, LD(0), LD(0)
    start = ref.ceps if c["kind"] == "GNGD" else ref.cmu
    cut = False
    for k in range(m):
        inc = ref.inc(e[k], x[k])
        inc2 = np.array([alt.inc(e[k] * (1 + LD(1e-14) * g[k, 0]) + 2 * unc[k] * g[k, 0],
                                 x[k].astype(LD) * (1 + LD(1e-14) * g[k, 1:])) for alt, g in zip(alts, sg)])
        if not (np.all(np.isfinite(inc)) and np.all(np.isfinite(inc2))):
            cut = True
            break
        size = np.max(np.abs(inc))
        spread = np.max(np.abs(inc - inc2))
        # state differences persist even where one increment happens to agree
        s1 = state(ref)
        worst = max([worst] + [np.max(np.abs(s1 - state(alt)) / np.maximum(np.abs(s1), LD(1e-300)))
                               for alt in alts])
        big = np.max(np.abs(s1)) * np.sum(np.abs(x[k])) ** 2
        if c["kind"] == "VSLMS_Benveniste" and not max(big, last) < 1e5:
            cut = True
            break                      # I - mu*x*x' loses its I to rounding
        last = big
        if spread > 1e-7 * size + LD(1e-290) or worst > 1e-7:
            cut = True
            break                      # the recursion itself amplifies rounding here
        got = W[k + 1].astype(LD) - W[k].astype(LD)
        tol = (1e-10 + 1000 * worst) * np.abs(inc) + 100 * spread + LD(1e-300) \
            + 4.5e-16 * np.maximum(np.abs(W[k]), np.abs(W[k + 1]))
        bad = ~(np.abs(got - inc) <= tol)
        if bad.any():
            raise Violation("%s: sample %d of %d (error %.17g): the weights move by %s, the recursion says %s"
                            % (c["kind"], k, len(d), e[k], hist.short(got), hist.short(inc)))
        moved += bool(np.any(got != 0))
    now = ref.ceps if c["kind"] == "GNGD" else ref.cmu
    lab = common.labels(case) + (["rounding horizon"] if cut else [])
    if now != start:
        lab.append("step size adapted")
    return {"labels": lab, "nontrivial": moved >= 2 and now != start}
