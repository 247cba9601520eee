"""C29: a network training step is gradient descent on the squared error."""
import numpy as np
from hypothesis import strategies as st

from .. import net
from ..lib import LD, Violation

ID = "C29"
BUDGET = {"quick": 900, "thorough": 8000}
RULE = ("case = (network shape, outputs, activation, learning rate, data, number of steps): after every step all "
        "weight changes against minus rate times the gradient from an extended-precision backpropagation, itself "
        "compared with difference quotients of the squared error. Non-trivial: every layer's weights change")


@st.composite
def cases_(draw, tier):
    c = draw(net.shape())
    N = net.rows(draw, 8, 80)
    between = draw(st.sampled_from(["", "", "predict", "run", "test"]))
    if N > 100:
        c["layers"] = c["layers"][:2]
        between = "" if between != "predict" else between
    return {"net": c, "N": N, "data": draw(net.data_spec()), "weights": draw(st.sampled_from(net.PATTERNS)), "gain": draw(st.sampled_from([1.0, 1.0, 3.0, 0.1])),
            "between": between,
            "as": draw(st.sampled_from(["array", "list", "float"])), "via": draw(st.sampled_from(["step", "step", "train"]))}


def cases(tier):
    return cases_(tier)


def check(case):
    c, N = case["net"], case["N"]
    nn = net.make(c)
    if case["gain"] != 1.0:
        net.set_weights(nn, [w * case["gain"] for w in net.weights(nn)])
    net.pattern(nn, case.get("weights"))
    x, d = net.data(case["data"], N, c["n"], c["out"])
    rates = net.rates(c)
    what = "network %s->%s->%d (%s, mu=%s)" % (c["n"], c["layers"], c["out"], c["act"], c["mu"])
    moved = [False] * len(rates)
    for k in range(N):
        if case["between"] == "predict":
            nn.predict(x[0] * 0.5 - 1)
        elif case["between"] == "run":
            nn.run(x)
        elif case["between"] == "test":
            nn.test(x, d)
        W = net.weights(nn)
        if not all(np.all(np.isfinite(w)) and np.max(np.abs(w)) < 1e5 for w in W):
            break
        if case["via"] == "train":
            e = nn.train(x[k:k + 1], d[k:k + 1], epochs=1)[0][0]
        else:
            nn.predict(x[k].tolist() if case["as"] == "list" else x[k])
            t = d[k]
            if c["out"] == 1 and case["as"] == "float":
                t = float(t)
            elif c["out"] > 1 and case["as"] == "list":
                t = t.tolist()
            e = nn.update(t)
        if np.shape(e) != np.shape(d[k]):
            raise Violation("%s: the returned error has the shape %s" % (what, np.shape(e)))
        G, er = net.gradients(c, W, x[k], d[k])
        b = net.error_bound(c, W, x[k])
        if not np.all(np.abs(np.atleast_1d(e) - er) <= 4 * b + 1e-15 * (np.abs(er) + np.abs(np.atleast_1d(d[k])))):
            raise Violation("%s: step %d returns the error %s instead of %s" % (what, k, e, np.array(er, dtype=float)))
        if k == 0:
            quotient(c, W, x[k], d[k], G)
        V = net.weights(nn)
        eb = bounds(c, W, x[k], d[k], b)
        for i, (w, v, g) in enumerate(zip(W, V, G)):
            want = -rates[i] * g
            got = v.astype(LD) - w
            tol = rates[i] * eb[i] + 4.5e-16 * np.maximum(np.abs(w), np.abs(v)) + 1e-13 * np.abs(want) + LD(1e-300)
            bad = ~(np.abs(got - want) <= tol)
            if bad.any():
                j = tuple(np.argwhere(bad)[0])
                raise Violation("%s: step %d changes weight %s of %s by %.12g, minus rate times gradient is %.12g"
                                % (what, k, list(map(int, j)),
                                   "the output layer" if i == len(W) - 1 else "hidden layer %d" % i, got[j], want[j]))
            moved[i] |= bool(np.any(got != 0))
    return {"labels": net.labels(c) + (["several steps"] if N > 1 else []) + ["via:" + case["via"]]
            + (["calls in between"] if case["between"] else []), "nontrivial": all(moved)}


def bounds(c, W, x, d, b):
    """Bounds of the rounding errors of the gradients."""
    ins, y = net.forward(c, W, x)
    e = np.abs(np.atleast_1d(np.asarray(d, dtype=LD)) - y)
    mag = e + np.abs(y) + np.abs(np.atleast_1d(d))
    err = 8 * b + 4e-16 * mag           # of the backward error
    out = [None] * len(W)
    size = e
    for i in range(len(W) - 1, -1, -1):
        aw = np.abs(W[i])
        if i < len(W) - 1:
            err, size = err + 1e-14 * (len(W) + np.max(aw)) * size, size
        out[i] = np.outer(err + 1e-14 * size, np.abs(ins[i])) + np.outer(size + err, np.full(len(ins[i]), 1e-13 * (1 + np.max(aw))))
        f = aw[:, 1:].T
        err, size = f @ err + 1e-14 * (f @ size), f @ size
        # inputs of the layer are uncertain as well: slopes change by at most twice that
        if i > 0:
            err = err + size * 4e-15 * (1 + np.max(np.abs(W[i - 1])) * (1 + np.max(np.abs(ins[i - 1]))) * len(ins[i - 1])) \
                * (1 + sum(np.max(np.sum(np.abs(w), axis=1)) for w in W[:i]))
    return out


def quotient(c, W, x, d, G):
    """The reference gradient is the derivative of half the squared error, along a random direction."""
    rs = np.random.RandomState(len(W) + 17)
    D = [rs.normal(0, 1, w.shape).astype(LD) for w in W]
    h = LD(1e-6)
    s = sum(np.sum(g * v) for g, v in zip(G, D))
    p = net.half_square(c, [w + h * v for w, v in zip(W, D)], x, d)
    m = net.half_square(c, [w - h * v for w, v in zip(W, D)], x, d)
    q = (p - m) / (2 * h)
    scale = sum(np.sum(np.abs(g * v)) for g, v in zip(G, D)) + abs(p) * 1e-3
    if abs(q - s) > 1e-4 * scale * (1 + np.max(np.abs(x))) ** 2 + 1e-9:
        raise AssertionError("the reference gradient is wrong: %g and %g" % (q, s))
