"""C09: the online-centred filter compensates constant offsets."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds
from ..lib import LD, Violation, pa
from ..runner import known_findings

ID = "C09"
BUDGET = {"quick": 420, "thorough": 5000}
RULE = ("case = (size, mu, eps, mem, initial weights, data, history of run/adapt/online calls) of an OCNLMS filter: "
        "outputs and increments are compared with a model of the centring memory in extended precision; and an offset "
        "case, where a twin gets the same data plus constants (without learning during warm-up, with learning after "
        "it). Non-trivial: the memory wraps and weights move")
ASSUMPTIONS = ["the memory is modelled as built (its index moves twice per sample); see the findings for C09"]


class Memory:
    """The centring memory: two ring buffers, read as means."""

    def __init__(self, mem, n, t=LD):
        self.x, self.d = np.zeros((mem, n), t), np.zeros(mem, t)
        self.i, self.full, self.t = 0, False, t

    def centre(self):
        if self.full:
            rest = [j for j in range(len(self.d)) if j != self.i]
            return np.mean(self.d[rest]), np.mean(self.x, axis=0)
        if self.i == 0:
            return self.t(0), self.x[0] * 0
        return np.mean(self.d[:self.i]), np.mean(self.x[:self.i + 1], axis=0)

    def move(self):
        self.i += 1
        if self.i == len(self.d):
            self.i, self.full = 0, True


class Model:
    def __init__(self, n, o, t=LD):
        self.m = Memory(o["mem"], n, t)
        self.mu, self.eps, self.t = t(o["mu"]), t(o["eps"]), t

    def out(self, w, x):
        md, mx = self.m.centre()
        return np.sum(w * (x - mx)) + md

    def inc(self, w, x, e):
        m = self.m
        m.move()
        m.x[m.i] = x
        md, mx = m.centre()
        m.move()
        m.d[m.i - 1] = e + np.sum(w * (x - mx)) + md
        z = x - mx
        return self.mu * e * z / (self.eps + np.sum(z * z))


@st.composite
def cases_(draw, tier):
    if draw(st.integers(0, 9)) < 7:
        case = draw(common.hist_case(["OCNLMS"], typical=40, hi=1200))
        case["what"] = "model"
        return case
    n = gen.tail(draw, 1, 5, 24)
    mem = draw(st.sampled_from([5, 7, 9, 11, 15, 5, 7, 25, 2, 3, 4, 6, 10]))
    return {"what": "offset", "cfg": {"kind": "OCNLMS", "n": n, "w": draw(kinds.weights(n)),
                                      "opts": {"mem": mem, "mu": draw(st.sampled_from([0.1, 0.5, 1.0, 0.01])),
                                               "eps": draw(st.sampled_from([1.0, 0.1, 0.001]))}},
            "N": draw(st.integers(5, 60)),
            "data": draw(gen.data_spec(scales=False, xpats=["gauss", "ints", "sparse", "hist", "sine", "binary"],
                                       tpats=["linear", "noise", "ints", "drift"])),
            "bx": draw(st.sampled_from([1.0, 100.0, -10.0, 0.5])), "bd": draw(st.sampled_from([5.0, -50.0, 0.0, 1.0])),
            "same": draw(st.booleans())}


def cases(tier):
    return cases_(tier)


def check(case):
    return check_offset(case) if case["what"] == "offset" else check_model(case)


def check_model(case):
    c, x, d, opts = hist.prepare(case)
    n, N = c["n"], len(d)
    o = dict(kinds.DEFAULTS["OCNLMS"], **opts)
    R = hist.drive(kinds.make(c, opts), case["ops"], x, d)
    W = np.vstack([R.w, R.end[None, :]])
    m = hist.finite_until(W) - 1
    a, b = Model(n, o), Model(n, o)
    sg = np.random.RandomState(5).normal(0, 1, (m, n + 2))
    moved, worst, cut = 0, LD(0), False
    for k in range(m):
        xk, wk = x[k].astype(LD), W[k].astype(LD)
        xb = xk * (1 + LD(3e-14) * sg[k, 1:-1])
        y, yb = a.out(wk, xk), b.out(wk, xb)
        md, mx = a.m.centre()
        mag = np.sum(np.abs(wk) * (np.abs(xk) + np.abs(mx))) + abs(md) + np.max(np.abs(x[:k + 1])) * np.max(np.abs(wk))
        worst = max(worst, abs(y - yb))
        tol = 100 * worst + 1e-12 * mag + LD(1e-290)
        if not np.isnan(R.y[k]) and not abs(R.y[k] - y) <= tol:
            raise Violation("OCNLMS (mem=%d): the output of sample %d of %d is %.17g, centring by the memory gives %.17g"
                            % (o["mem"], k, N, R.y[k], y))
        e = LD(R.e[k]) if not np.isnan(R.e[k]) else LD(d[k]) - y
        inc = a.inc(wk, xk, e)
        inc_b = b.inc(wk, xb, e * (1 + LD(3e-14) * sg[k, 0]) + (tol * 0.01 * sg[k, -1] if np.isnan(R.e[k]) else 0))
        got = W[k + 1].astype(LD) - wk
        spread = np.max(np.abs(inc - inc_b))
        if not (np.all(np.isfinite(inc)) and np.isfinite(spread)) or spread > 1e-5 * np.max(np.abs(inc)) + 1e-250:
            cut = True
            break
        t2 = 1e-10 * np.abs(inc) + 100 * spread + 4.5e-16 * np.maximum(np.abs(W[k]), np.abs(W[k + 1])) + LD(1e-300)
        if not np.all(np.abs(got - inc) <= t2):
            raise Violation("OCNLMS (mem=%d): sample %d of %d moves the weights by %s, the rule with the centre of the "
                            "memory by %s" % (o["mem"], k, N, hist.short(got), hist.short(inc)))
        moved += bool(np.any(got != 0))
    lab = common.labels(case) + (["mem even"] if o["mem"] % 2 == 0 else ["mem odd"])
    wraps = N * 2 >= o["mem"]
    if wraps:
        lab.append("memory wraps")
    if cut:
        lab.append("rounding horizon")
    return {"labels": lab, "nontrivial": wraps and moved > 1}


def offset_gap(n, opts, w0, x, d, b, c, warm):
    """Largest differences (output minus constant, error, weights) after the warm-up, relative to the data."""
    o = dict(opts, mu=0.0)
    f = pa.filters.FilterOCNLMS(n=n, w=w0, **o)
    g = pa.filters.FilterOCNLMS(n=n, w=w0, **o)
    f.run(d[:warm], x[:warm])
    g.run(d[:warm] + c, x[:warm] + b)
    if not (np.array_equal(f.w, w0) and np.array_equal(g.w, w0)):
        raise Violation("OCNLMS with mu=0 moved its weights")
    # from here on they learn
    f.mu = g.mu = opts["mu"]
    y1, e1, w1 = f.run(d[warm:], x[warm:])
    y2, e2, w2 = g.run(d[warm:] + c, x[warm:] + b)
    sc = 1 + np.max(np.abs(x)) * np.max(np.abs(w0)) * n + np.max(np.abs(d)) + np.max(np.abs(e1))
    return (np.max(np.abs(y2 - y1 - c)) / sc, np.max(np.abs(e2 - e1)) / sc,
            max(np.max(np.abs(w2 - w1)), np.max(np.abs(f.w - g.w))) / (1e-3 + np.max(np.abs(w1))))


def check_offset(case):
    c = case["cfg"]
    n, o = c["n"], c["opts"]
    mem = o["mem"]
    listed = {k["id"] for k in known_findings()}
    strict = mem % 2 == 1 and mem >= 5
    warm = mem * (45 if strict else 6)
    x, d = gen.expand(case["data"], warm + case["N"], n)
    f0 = kinds.make(c, {})
    w0 = np.array(f0.w, dtype=float)
    rs = np.random.RandomState(case["data"]["seed"])
    b = case["bx"] * (np.ones(n) if case["same"] else rs.normal(0, 1, n))
    gy, ge, gw = offset_gap(n, o, w0, x, d, b, case["bd"], warm)
    lab = ["offset", "offset strict" if strict else "offset in listed finding"]
    size = 1 + abs(case["bx"]) + abs(case["bd"])
    if max(gy, ge) > 1e-7 * size or gw > 1e-4 * size:
        if strict:
            raise Violation("OCNLMS (mem=%d): constants added to inputs and targets change outputs by %.3g, errors by "
                            "%.3g and weights by %.3g (relative)" % (mem, gy, ge, gw))
        fid = "C09-even-mem" if mem % 2 == 0 else "C09-mem-3"
        if fid not in listed:
            raise Violation("OCNLMS (mem=%d): offsets are not compensated" % mem)
        return {"labels": lab, "known": [fid], "nontrivial": True}
    return {"labels": lab, "nontrivial": True}


def reproduces(fid):
    rs = np.random.RandomState(1)
    mem = 100 if fid == "C09-even-mem" else 3
    x, d = rs.normal(0, 1, (600, 3)), rs.normal(0, 1, 600)
    return max(offset_gap(3, {"mem": mem, "mu": 0.1, "eps": 1.0}, np.ones(3), x, d, np.full(3, 50.0), 20.0, 500)) > 1e-3
