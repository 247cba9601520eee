"""C36: every filter learns an unknown system from exciting data, and learns it again when it changes."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, kinds
from ..lib import Violation

ID = "C36"
BUDGET = {"quick": 110, "thorough": 1500}
RULE = ("case = two or three unknown systems, one after the other, exciting noise-free inputs, a filter with a step size well "
        "inside the stability range, and a way of delivering the data (batches, sample by sample, pretraining); after each "
        "system's data the distance to its weights has to be a small part (stated per filter) of what it was, and the "
        "errors have to fall accordingly. Every case is non-trivial")
# accepted part of the distance that is left; some times the worst of 8000 simulated cases of the documented formulas
LEFT = {"AP": 1e-6, "GMCC": 1e-4, "GNGD": 1e-4, "LMF": 0.6, "LMS": 1e-4, "Llncosh": 1e-2, "NLMF": 0.6, "NLMS": 1e-5,
        "NSSLMS": 0.6, "OCNLMS": 0.6, "RLS": 1e-4, "SSLMS": 0.3, "VSLMS_Ang": 0.05, "VSLMS_Benveniste": 0.1,
        "VSLMS_Mathews": 0.05}
ASSUMPTIONS = ["the accepted fractions LEFT are many times what simulations of the documented formulas leave"]


@st.composite
def cases_(draw, tier):
    kind = draw(st.sampled_from(kinds.KINDS))
    n = draw(st.integers(1, 8 if kind not in ("LMF", "NLMF") else 4))
    if draw(st.integers(0, 19)) == 0 and kind not in ("LMF", "NLMF", "SSLMS", "NSSLMS", "OCNLMS"):
        n = draw(st.integers(9, 30))
    return {"kind": kind, "n": n, "seed": draw(gen.SEEDS), "x": draw(st.sampled_from(["signs", "uniform", "gauss"])),
            "pick": draw(st.integers(0, 1000)), "unit": draw(st.sampled_from([1.0, 1.0, 1.0, 10.0, 50.0, 0.1])), "systems": draw(st.integers(1, 3)),
            "w": draw(st.sampled_from(["random", "zeros", "far"])),
            "mode": draw(st.sampled_from(["run", "run", "adapt", "pieces", "pretrained", "filter_data"]))}


def cases(tier):
    return cases_(tier)


def setting(case, X2):
    """Options for targets in the unit of the case."""
    o, u = options(case, X2), case.get("unit", 1.0)
    for name, p in UNITS.get(case["kind"], {}).items():
        o[name] = o[name] * u ** p
    return o


# how options follow the unit of the targets
UNITS = {"SSLMS": {"mu": 1}, "NSSLMS": {"mu": 1}, "LMF": {"mu": -2}, "NLMF": {"mu": -2}, "GNGD": {"ro": -2}, "Llncosh": {"lambd": -1, "mu": 1},
         "GMCC": {"lambd": -2, "mu": 2}, "VSLMS_Ang": {"ro": -2}, "VSLMS_Benveniste": {"ro": -2},
         "VSLMS_Mathews": {"ro": -2}}


def options(case, X2):
    """Options well inside the stability range for inputs of at most the power X2."""
    kind, n, p = case["kind"], case["n"], case["pick"]
    pick = lambda *a: a[p % len(a)]     # noqa: E731
    if kind == "LMS":
        return {"mu": 0.5 / X2}
    if kind == "NLMS":
        return {"mu": pick(0.2, 0.5, 1.0, 1.5)}
    if kind == "AP":
        return {"mu": pick(0.2, 0.5, 1.0), "order": 1 + p % n, "ifc": 0.001}
    if kind == "GNGD":
        return {"mu": pick(0.2, 0.5), "eps": pick(1.0, 0.1), "ro": pick(1e-3, 1e-4)}
    if kind == "RLS":
        return {"mu": pick(0.9, 0.95, 0.99), "eps": pick(0.1, 1.0)}
    if kind == "SSLMS":
        return {"mu": 0.005}
    if kind == "NSSLMS":
        return {"mu": 0.005 * (1 + n), "eps": 1.0}
    if kind == "LMF":
        return {"mu": 0.2 / X2 ** 2}
    if kind == "NLMF":
        return {"mu": 0.2 / X2, "eps": 0.001}
    if kind == "Llncosh":
        lam = pick(0.5, 1, 3)
        return {"mu": 0.5 / X2 / max(lam, 1), "lambd": lam}
    if kind == "GMCC":
        return {"lambd": 0.03, "alpha": 2, "mu": 0.5 / X2 / 0.06}
    if kind == "OCNLMS":
        return {"mu": 0.5, "eps": 1.0, "mem": pick(51, 101, 75)}
    return dict({"mu": 0.1 / X2, "ro": 1e-4 / X2 ** 3}, **({"a": 0.9} if kind == "VSLMS_Ang" else {}))


def check(case):
    kind, n = case["kind"], case["n"]
    rs = np.random.RandomState(case["seed"])
    N = 1000 + 500 * n
    shape = (N, n)
    ws = rs.normal(0, 1, n)
    u = case.get("unit", 1.0)
    ws *= u / np.linalg.norm(ws)
    gen_x = {"signs": lambda: rs.choice([-1.0, 1.0], shape), "uniform": lambda: rs.uniform(-1.7, 1.7, shape),
             "gauss": lambda: np.clip(rs.normal(0, 1, shape), -2, 2)}[case["x"]]
    o = setting(case, {"signs": 1, "uniform": 3, "gauss": 4}[case["x"]] * n)
    lab = [kinds.label(case), "x:" + case["x"], "mode:" + case["mode"], "systems:%d" % case["systems"]]
    if case["mode"] == "filter_data":
        from ..lib import pa
        x = gen_x()
        y, e, w = pa.filters.filter_data(x @ ws, x, model=kind, w=np.zeros(n), **o)
        judge(case, u, np.linalg.norm(w[-1] - ws), e, 0)
        return {"labels": lab}
    w0 = {"zeros": np.zeros(n), "random": rs.normal(0, 0.5, n) * u, "far": -ws}[case["w"]]
    f = kinds.cls(kind)(n=n, w=w0, **o)
    for i in range(case["systems"]):
        x = gen_x()
        # cubic errors bring the weights slowly over the last part of the way
        a = max(np.linalg.norm(f.w - ws), u * (1.0 if kind in ("LMF", "NLMF") else 0.2))
        d = x @ ws
        e = None
        if case["mode"] == "run":
            e = f.run(d, x)[1]
        elif case["mode"] == "pieces":
            cut = sorted(rs.randint(1, N, 4).tolist())
            for lo, hi in zip([0] + cut, cut + [N]):
                if hi > lo:
                    f.run(d[lo:hi], x[lo:hi])
        elif case["mode"] == "pretrained":
            f.pretrained_run(d, x, ntrain=0.5, epochs=2)
        else:
            for k in range(N):
                f.adapt(d[k], x[k])
        judge(case, a, np.linalg.norm(f.w - ws), e, i)
        v = rs.normal(0, 1, n)
        v = v * u / np.linalg.norm(v)
        ws = -ws if n == 1 else v
    return {"labels": lab}


def judge(case, a, b, e, i):
    kind = case["kind"]
    if not b <= LEFT[kind] * a:
        raise Violation("%s (%s, %s): noise-free exciting data of system %d bring the weights only from distance %.4g "
                        "to %.4g of the true ones" % (kind, case["mode"], setting(case, 1), i + 1, a, b))
    if e is not None and kind != "OCNLMS":
        t = np.max(np.abs(e[-20:]))
        if not t <= 4 * np.sqrt(case["n"]) * LEFT[kind] * max(a, case.get("unit", 1.0)):
            raise Violation("%s: the errors are still %.4g after %d samples of system %d" % (kind, t, len(e), i + 1))
