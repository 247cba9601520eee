"""C40: the detectors point at a perturbation in the data of a filter."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, kinds
from ..lib import Violation, pa

ID = "C40"
BUDGET = {"quick": 330, "thorough": 4000}
RULE = ("case = a system with noise, a filter that knows it (or learns it first), one perturbed target at a drawn sample; "
        "the weights and errors the filter returns go to the detectors: ELBND has its maximum at that sample, learning "
        "entropy (direct and multiscale, orders 1 to 3) at the weights that follow from it, and ESE is positive there. Units "
        "and offsets of the weights vary. Every case is non-trivial")


@st.composite
def cases_(draw, tier):
    pick = st.sampled_from
    m = draw(st.integers(10, 40))
    N = m + draw(st.integers(30, 150)) + (draw(st.integers(0, 900)) if draw(st.integers(0, 9)) == 0 else 0)
    return {"kind": draw(pick(["NLMS", "NLMS", "LMS", "AP"])), "n": draw(st.integers(1, 8)), "N": N, "m": m,
            "at": draw(st.integers(m + 5, N - 8)), "seed": draw(gen.SEEDS), "mu": draw(pick([0.1, 0.2, 0.5])),
            "size": draw(pick([200, -200, 1000, -5000, 100000])), "x": draw(pick(["signs", "sphere"])),
            "noise": draw(pick([0.01, 0.1, 1e-4])), "unit": draw(pick([1.0, 1.0, 100.0, 1e-3])),
            "learn": draw(st.booleans()), "order": draw(st.integers(1, 3)), "via": draw(pick(["run", "filter_data", "pretrained"])),
            "ese": draw(st.integers(0, 7)) == 0, "shift": draw(pick([0.0, 0.0, 5.0, -100.0])),
            "alpha": draw(pick([[8, 9, 10, 11, 12, 13], [4.0], [2, 5, 10], [12, 3]]))}


def cases(tier):
    return cases_(tier)


def check(case):
    n, N, k0, m = case["n"], case["N"], case["at"], case["m"]
    rs = np.random.RandomState(case["seed"])
    unit = case["unit"]
    L = 1500 if case["learn"] or case["via"] == "pretrained" else 0

    def rows(M):
        if case["x"] == "signs" or n == 1:
            return rs.choice([-1.0, 1.0], (M, n))
        g = rs.normal(0, 1, (M, n))
        return g / np.linalg.norm(g, axis=1)[:, None] * np.sqrt(n)

    ws = rs.normal(0, 1, n) * unit
    s = case["noise"] * unit
    x0, x = rows(L), rows(N)
    # noise that is never tiny for long
    v0, v = (s * rs.uniform(0.3, 1, M) * rs.choice([-1, 1], M) for M in (L, N))
    d0, d = x0 @ ws + v0, x @ ws + v
    d[k0] += case["size"] * s
    mu = case["mu"] / n if case["kind"] == "LMS" else case["mu"]
    o = {"mu": mu}
    if case["kind"] == "NLMS":
        o["eps"] = 1e-3
    if case["kind"] == "AP":
        o.update(order=1, ifc=1e-3)
    if case["via"] == "filter_data":
        y, e, w = pa.filters.filter_data(d, x, model=case["kind"], w=ws, **o)
    else:
        f = kinds.cls(case["kind"])(n=n, w=np.zeros(n) if L else ws, **o)
        if case["via"] == "pretrained":
            # the first part has the same length as the second one
            k = N
            xx, dd = rows(k), None
            dd = xx @ ws + s * rs.uniform(0.3, 1, k) * rs.choice([-1, 1], k)
            f.run(d0, x0)
            y, e, w = f.pretrained_run(np.append(dd, d), np.vstack([xx, x]), ntrain=0.5, epochs=2)
        else:
            if L:
                f.run(d0, x0)
            y, e, w = f.run(d, x)
    D = pa.detection
    name = "%s (mu=%g, %d weights, %d samples), target %d perturbed by %g times the noise" % (
        case["kind"], mu, n, N, k0, case["size"])
    for agg in ("max", "sum"):
        b = D.ELBND(w, e, function=agg)
        if int(np.argmax(b)) != k0:
            raise Violation("%s: ELBND (%s) has its maximum at %d" % (name, agg, np.argmax(b)))
    w = w + case["shift"] * unit
    order = case["order"]
    t = D.learning_entropy(w, m=m, order=order)
    lo = m + order                                  # samples before have no increments of this order in the window
    if k0 + 1 >= lo + m:
        t = np.max(t[lo + order:], axis=1)
        if lo + order + int(np.argmax(t)) != k0 + 1:
            raise Violation("%s: learning entropy (direct, order %d, window %d) has its maximum at %d"
                            % (name, order, m, lo + order + np.argmax(t)))
    t = D.learning_entropy(w, m=m, order=order, alpha=case["alpha"])
    if k0 + 1 >= lo + m and case["x"] == "signs":
        if t[k0 + 1] != 1 or np.max(t[lo:]) > 1:
            raise Violation("%s: multiscale learning entropy (order %d, window %d) is %g there" % (name, order, m, t[k0 + 1]))
    if case["ese"] and k0 + 1 >= m + 2 and m >= 20:
        t = D.ESE(w, window=m)
        if not t[k0 + 1] > 0:
            raise Violation("%s: ESE (window %d) is %g there" % (name, m, t[k0 + 1]))
    return {"labels": ["kind:" + case["kind"], "order:%d" % order, "via:" + case["via"]] + (["ESE"] if case["ese"] else [])}
