"""C43: a filter of the user's own only has to say how the weights move."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds
from ..lib import Violation, pa

ID = "C43"
BUDGET = {"quick": 1800, "thorough": 9000}
RULE = ("case = a class derived from the base class (or its affine projection variant) with a drawn learning rule, which may "
        "keep a state, and a history of run, adapt, online and pretrained_run calls; outputs, errors, weight history and final "
        "weights against a loop of our own over the same rule. Non-trivial: the weights move")
BASES = ["LMS", "NLMS", "RLS", "GNGD", "VSLMS_Mathews", "GMCC"]      # (with a rule of one's own nothing of them is left)
RULES = ["e x", "soft", "tanh", "leak", "count", "last", "own n", "none", "inplace"]


@st.composite
def cases_(draw, tier):
    n = gen.tail(draw, 1, 5, 30, "base_filter", 130)
    N = gen.length(draw, 24, 500, part="base_filter")
    if N > 10000:
        n = min(n, 2)
    ap = draw(st.integers(0, 2)) == 0
    return {"n": n, "N": N, "rule": draw(st.sampled_from(RULES)), "data": draw(gen.data(n, N, **{"scales": False})),
            "ops": draw(gen.ops(N, common.MODES + ("pre",))), "ap": ap, "order": draw(st.integers(1, 7)),
            "mu": draw(st.sampled_from([0.01, 0.1, None, 0.5, -0.1, 0.0, 0])),
            "levels": draw(st.sampled_from([0, 0, 1, 2])), "base": draw(st.sampled_from([None, None, None] + BASES)), "w": draw(st.sampled_from(["zeros", "array", "random", "omitted"])),
            "extra": draw(st.booleans()), "kind": draw(st.sampled_from(["own", None, "LMS", "AP"]))}


def cases(tier):
    return cases_(tier)


def step(rule, s, mu, e, x):
    """Increment of the weights for error e and input x (arrays of them for the projection); s is the state of the rule."""
    s["k"] += 1
    p = np.sum(x * x) + 1.0
    g = x @ np.atleast_1d(e) / p if np.ndim(x) == 2 else e * x / p
    if rule == "e x":
        out = mu * g
    elif rule == "soft":
        out = mu * g / (1 + np.abs(g))
    elif rule == "tanh":
        out = mu * np.tanh(g)
    elif rule == "leak":            # pulled towards what it was told last
        out = mu * g - 0.1 * s["g"]
    elif rule == "count":
        out = mu * g / s["k"]
    elif rule == "last":
        out = mu * s["g"]
    elif rule == "own n":
        out = mu * g * (1 + 1 / len(g))
    elif rule == "inplace":
        out = s["buf"]
        out[:] = mu * g
    else:
        out = np.zeros(len(g))
    s["g"] = np.array(g)
    return out


def state(n):
    return {"k": 0, "g": np.zeros(n), "buf": np.zeros(n)}


def make(case, w):
    base = pa.filters.base_filter.AdaptiveFilterAP if case["ap"] else pa.filters.base_filter.AdaptiveFilter
    rule = case["rule"]
    if case.get("base") and rule != "none":
        base = kinds.cls("AP" if case["ap"] else case["base"])

    if case["extra"]:
        class FilterOwn(base):
            def __init__(self, n, gain=1.0, **kwargs):
                super().__init__(n, **kwargs)
                self.gain = gain
                self.own = state(n)

            def learning_rule(self, e, x):
                return step(rule, self.own, self.mu * self.gain, e, np.array(x))
    else:
        own = state(case["n"])

        class FilterOwn(base):
            def learning_rule(self, e, x):
                return step(rule, own, self.mu, e, np.array(x))

    for _ in range(case.get("levels", 0)):
        class FilterOwn(FilterOwn):
            pass
    if case["kind"]:
        FilterOwn.kind = case["kind"]
    kw = {}
    if case["mu"] is not None:
        kw["mu"] = case["mu"]
    if case["extra"]:
        kw["gain"] = 0.5
    if case["ap"]:
        kw["order"] = case["order"]
    if w is not None:
        kw["w"] = w
    return base(case["n"], **{k: v for k, v in kw.items() if k != "gain"}) if rule == "none" else FilterOwn(case["n"], **kw)


class Diverged(Exception):
    """Nothing left to compare."""


def check(case):
    try:
        return check_(case)
    except Diverged:
        return {"labels": ["diverged"], "nontrivial": False}


def check_(case):
    n, N = case["n"], case["N"]
    x, d = gen.expand(case["data"], N, n, np.zeros(n))
    w = {"zeros": "zeros", "random": "random", "array": np.linspace(-1, 1, n), "omitted": None}[case["w"]]
    f = make(case, w)
    w = np.array(f.w, dtype=float)
    if case["rule"] == "none":
        case = dict(case, extra=False)
    if w.shape != (n,) or (case["w"] == "array" and not np.array_equal(w, np.linspace(-1, 1, n))) or \
            (case["w"] == "zeros" and w.any()):
        raise Violation("a derived filter starts with the weights %s, asked for were %s" % (hist.short(w), case["w"]))
    default = f.mu if case.get("base") and case["rule"] != "none" else 0.01
    mu = (case["mu"] if case["mu"] is not None else default) * (0.5 if case["extra"] else 1.0)
    s = state(n)
    m = case["order"]
    X, D = np.zeros((n, m)), np.zeros(m)
    top = 0.0                       # the largest weight so far
    what = "%s, rule %r, n=%d" % ("derived from AdaptiveFilterAP" if case["ap"] else "derived from AdaptiveFilter", case["rule"], n)

    def learn(k):
        """One sample of our own loop: output, error, weights before."""
        nonlocal w, X, D, top
        top = max(top, np.max(np.abs(w)))
        row, y = w, float(w @ x[k])
        e = d[k] - y
        if case["ap"]:
            X = np.column_stack([x[k], X[:, :-1]])
            D = np.append(d[k], D[:-1])
            inc = step(case["rule"], s, mu, D - X.T @ w, X)
        else:
            inc = step(case["rule"], s, mu, e, x[k])
        w = w + inc
        return y, e, row

    def same(a, b, name, k):
        tol = 1e-8 * (top * big + np.max(np.abs(d)) + 1e-9)
        if not tol < 1e100:
            raise Diverged
        if not np.all(np.abs(np.asarray(a, dtype=float) - b) <= tol):
            raise Violation("%s: the %s of sample %d (of %d) is %s, our own loop gives %s"
                            % (what, name, k, N, hist.short(a), hist.short(b)))

    at, moved = 0, False
    big = np.max(np.abs(x)) * n + 1.0
    for mode, ln in case["ops"]:
        b = at + ln
        if mode == "pre" and ln < 2:
            mode = "run"
        if mode in ("run", "pre"):
            idx = list(range(at, b))
            if mode == "pre":
                half = int(ln * 0.5)
                for k in idx[:half] * 2:
                    learn(k)
                idx = idx[half:]
                got = f.pretrained_run(d[at:b].copy(), x[at:b].copy(), ntrain=0.5, epochs=2)
            else:
                got = f.run(d[at:b].copy(), x[at:b].copy())
            hist.shapes(*got, len(idx), n)
            for j, k in enumerate(idx):
                y, e, row = learn(k)
                same(got[0][j], y, "output", k)
                same(got[1][j], e, "error", k)
                same(got[2][j], row, "weight row", k)
        else:
            for k in range(at, b):
                if mode == "online":
                    p = f.predict(x[k].copy())
                f.adapt(hist.number(d[k], k), x[k].copy())
                y, e, row = learn(k)
                if mode == "online":
                    same(p, y, "prediction", k)
        top = max(top, np.max(np.abs(w)))
        same(f.w, w, "weights after the call that ends with the last", b - 1)
        moved = moved or case["rule"] != "none" and bool(np.any(w != 0))
        at = b
    return {"labels": [case["rule"], "projection" if case["ap"] else "plain", "base:%s" % case.get("base"),
                       "levels:%d" % case.get("levels", 0)] + ["mode:" + m for m, _ in case["ops"]],
            "nontrivial": moved}
