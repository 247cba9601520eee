"""Reference network (extended precision) and generators of network cases."""
import numpy as np
from hypothesis import strategies as st

from . import gen, mine
from .lib import LD, pa


WIDTHS = mine.sizes("ann", 1, 130, 0, (1, 2, 8, 16, 32, 33, 64, 100))
ROWS = mine.sizes("ann", 13, 2100, 5000, (13, 64, 100, 128, 200, 256, 500))


def rows(draw, typical=12, hi=120):
    """A number of samples: mostly small, at times long, at times near a constant of the source."""
    c = draw(st.integers(0, 29))
    if c < 27:
        return draw(st.integers(1, typical))
    return draw(st.integers(typical, hi)) if c < 29 else draw(st.sampled_from(ROWS))


@st.composite
def shape(draw, big=False):
    layers = [draw(st.integers(1, 6)) for _ in range(gen.tail(draw, 1, 4, 8))]
    if draw(st.integers(0, 19)) == 0:
        layers[draw(st.integers(0, len(layers) - 1))] = draw(st.sampled_from(WIDTHS))
    if draw(st.integers(0, 14)) == 0:
        layers = [draw(st.integers(1, 40)) for _ in layers]
    return {"layers": layers, "n": draw(st.integers(1, 6)) if draw(st.integers(0, 14)) else draw(st.integers(1, 40)),
            "out": draw(st.sampled_from([1, 1, 2, 3, 1, 5, 1, 2, 4, gen.tail(draw, 1, 5, 20)])), "act": draw(st.sampled_from(["sigmoid", "tanh", "omitted"])),
            "mu": draw(st.sampled_from(["auto", "auto", "omitted", 0.1, 0.5, 0.01, 1, 0.3, 1e-4, 0, 1.5, 2, 10.0])),
            "seed": draw(gen.SEEDS), "box": draw(st.sampled_from(["list", "array", "tuple"]))}


@st.composite
def data_spec(draw):
    return {"seed": draw(gen.SEEDS), "x": draw(st.sampled_from(["gauss", "binary", "ints", "sparse", "zeros", "dup", "slow"])),
            "xs": draw(st.sampled_from([1.0, 1.0, 1.0, 0.1, 5.0, 30.0, 1e-4])),
            "d": draw(st.sampled_from(["gauss", "binary", "ints", "func", "const"])),
            "ds": draw(st.sampled_from([1.0, 1.0, 0.1, 3.0]))}


def data(s, N, n, out):
    rs = np.random.RandomState(s["seed"])
    g = rs.normal(0, 1, (N, n))
    x = {"gauss": g, "binary": rs.randint(0, 2, (N, n)) * 1.0, "ints": rs.randint(-3, 4, (N, n)) * 1.0,
         "sparse": g * (rs.random_sample((N, n)) < 0.3), "zeros": np.zeros((N, n)),
         "slow": g[:1] * (1 + 10.0 ** rs.uniform(-7, -2) * rs.normal(0, 1, (N, n))) if N else g,
         "dup": g[rs.randint(0, max(1, N // 2), N)] if N else g}[s["x"]] * s["xs"]
    h = rs.normal(0, 1, (N, out))
    d = {"gauss": h, "binary": rs.randint(0, 2, (N, out)) * 1.0, "ints": rs.randint(-2, 3, (N, out)) * 1.0,
         "func": np.tanh(x @ rs.normal(0, 1, (n, out))), "const": np.ones((N, out))}[s["d"]] * s["ds"]
    return x, d[:, 0] if out == 1 else d


PATTERNS = ["", "", "", "", "", "equal", "zero", "twins", "one", "sparse", "negative"]


def pattern(nn, how):
    """Special weights: neurons that are all equal, all zero, pairwise equal, ..."""
    if not how:
        return
    W = weights(nn)
    for i, w in enumerate(W):
        if how == "equal":
            w = np.full(w.shape, 0.3)
        elif how == "zero":
            w = w * 0
        elif how == "twins":
            w = np.repeat(w[::2], 2, axis=0)[:len(w)] if w.ndim == 2 else w
        elif how == "one":
            w = np.ones(w.shape)
        elif how == "sparse":
            w = w * (np.arange(w.size).reshape(w.shape) % 3 == 0)
        else:
            w = -np.abs(w)
        W[i] = w
    set_weights(nn, W)


def make(c):
    np.random.seed(c["seed"] % 2 ** 32)
    kw = {}
    if c["act"] != "omitted":
        kw["activation"] = c["act"]
    if c["mu"] != "omitted":
        kw["mu"] = c["mu"]
    if c["out"] != 1 or c["seed"] % 2:
        kw["outputs"] = c["out"]
    L = c["layers"]
    L = np.array(L) if c["box"] == "array" else tuple(L) if c["box"] == "tuple" else list(L)
    return pa.ann.NetworkMLP(L, c["n"], **kw)


def weights(nn):
    """Copies of the weights: hidden layers first, then the output layer (always 2d)."""
    return [np.array(l.w, dtype=float) for l in nn.layers] + [np.atleast_2d(np.array(nn.w, dtype=float))]


def expected_shapes(c):
    sizes = [c["n"]] + list(c["layers"]) + [c["out"]]
    return [(b, a + 1) for a, b in zip(sizes[:-1], sizes[1:])]


def set_weights(nn, W):
    for l, w in zip(nn.layers, W[:-1]):
        l.w = w.copy()
    nn.w = W[-1].copy() if nn.w.ndim == 2 else W[-1][0].copy()


def rates(c):
    """Learning rates of all layers, output layer last."""
    sizes = [c["n"]] + list(c["layers"])
    if c["mu"] in ("auto", "omitted"):
        return [LD(s) ** LD(-0.5) for s in sizes]
    return [LD(c["mu"])] * len(sizes)


def act(c, v):
    return np.tanh(v) if c["act"] == "tanh" else 1 / (1 + np.exp(-v))


def forward(c, W, x):
    """Inputs of every layer (with the leading one of the bias) and the output, and the output's magnitude."""
    a = np.asarray(x, dtype=LD)
    ins = []
    for w in W[:-1]:
        a = np.concatenate([[LD(1)], a])
        ins.append(a)
        a = act(c, w.astype(LD) @ a)
    a = np.concatenate([[LD(1)], a])
    ins.append(a)
    y = W[-1].astype(LD) @ a
    return ins, y


def error_bound(c, W, x, u=2.3e-16):
    """A bound of the rounding error of an output computed in double precision."""
    a = np.abs(np.asarray(x, dtype=float))
    delta = np.zeros(len(a))
    for i, w in enumerate(W):
        aw = np.abs(w)
        s = aw[:, 1:] @ a + aw[:, 0]
        delta = aw[:, 1:] @ delta + (w.shape[1] + 4) * u * s
        if i < len(W) - 1:
            a = np.ones(len(s))
            delta = delta + 8 * u          # both activations have slope at most one
    return delta


def gradients(c, W, x, d):
    """Gradient of half the squared error with respect to all weights, and the error."""
    ins, y = forward(c, W, x)
    e = np.atleast_1d(np.asarray(d, dtype=LD)) - y
    back = -e
    G = [None] * len(W)
    for i in range(len(W) - 1, -1, -1):
        if i < len(W) - 1:
            out = ins[i + 1][1:]
            back = back * ((1 - out ** 2) if c["act"] == "tanh" else out * (1 - out))
        G[i] = np.outer(back, ins[i])
        back = W[i].astype(LD)[:, 1:].T @ back
    return G, e


def half_square(c, W, x, d):
    e = np.atleast_1d(np.asarray(d, dtype=LD)) - forward(c, W, x)[1]
    return np.sum(e * e) / 2


def labels(c):
    return ["hidden layers:%d" % len(c["layers"]), "outputs:%s" % ("1" if c["out"] == 1 else "many"), "act:" + c["act"],
            "mu:" + ("auto" if c["mu"] in ("auto", "omitted") else "given")] + (["layer of one"] if 1 in c["layers"] else [])
