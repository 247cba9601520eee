"""Generators of filter cases: data, configurations and call histories.

A drawn case is a small JSON-able description (patterns, sizes, scales and one drawn integer `seed` per part), which
`expand_*` turns into arrays deterministically, so Hypothesis chooses and shrinks all of it. A part of the cases
is written out element by element instead.
"""
import numpy as np
from hypothesis import strategies as st

from . import mine

XPATS = ["ints", "gauss", "sparse", "onehot", "repeat", "corr", "hist", "mixedrows", "mixedcols", "const",
         "binary", "sine", "ramp", "dupcols", "bursts", "heavy", "zeros"]
TPATS = ["linear", "exact", "zeros", "noise", "ints", "const", "spikes", "drift", "switch", "own", "scaledmix",
         "lazy"]

_FILT_SIZES = mine.sizes("filters", 1, 3000)
_FILT_MAGS = mine.magnitudes("filters")
_NEW_MAGS = mine.fresh_magnitudes("filters")


def sizes_near_constants(part, lo, hi, fresh_hi=0):
    return mine.sizes(part, lo, hi, fresh_hi) or [lo]


def length(draw, typical=24, hi=1500, part="filters", lo=1, mined_hi=3000, rare=0.06):
    """A data length: mostly small, at times near a constant of the source, at times long."""
    new = mine.fresh(part, max(lo, 8), 10000)
    if rare and new and draw(st.integers(0, 9)) == 0:
        return draw(st.sampled_from(new)) + draw(st.sampled_from([0, 0, 1, 3, 9]))
    huge = mine.fresh(part, 10001, 70000)
    if rare and huge and draw(st.integers(0, 79)) == 41:
        return draw(st.sampled_from(huge)) + draw(st.sampled_from([0, 1, 9]))
    c = draw(st.integers(0, 99))
    if c < 100 * (1 - rare):
        return draw(st.integers(lo, typical))
    if c < 100 * (1 - rare / 2):
        cand = [s for s in mine.sizes(part, lo, mined_hi) if s > typical] or [typical]
        return draw(st.sampled_from(cand))
    return draw(st.integers(lo, hi))


def filter_size(draw, hi=8, rare_hi=40, part="filters"):
    return tail(draw, 1, hi, max(rare_hi, hi), part, 130)


def tail(draw, lo, typical, hi, part="", mined_hi=None):
    """A size: mostly small, at times larger, at times near a constant of the source."""
    new = mine.fresh(part, typical + 1, mined_hi or hi)
    if new and draw(st.integers(0, 9)) == 0:
        return draw(st.sampled_from(new))
    c = draw(st.integers(0, 24))
    if c < 21 or hi <= typical:
        return draw(st.integers(lo, typical))
    if c < 23:
        cand = [s for s in mine.sizes(part, lo, mined_hi or hi) if s > typical]
        if cand:
            return draw(st.sampled_from(cand))
    return draw(st.integers(typical, hi))


SEEDS = st.integers(0, 2 ** 31 - 1)
EXPS = st.sampled_from([0, 0, 0, 0, 1, -1, 2, -2, 3, -3, -4, 4, -6, 5, -8, 6, -10, -12])


@st.composite
def scale(draw, mags=None, lo=-15, hi=7):
    """A positive magnitude: powers of ten, or near a constant of the source."""
    new = [m for m in _NEW_MAGS if 10.0 ** lo <= m <= 10.0 ** hi] if mags is None else ()
    c = draw(st.integers(0, 9))
    if c < (5 if new else 7):
        e = draw(EXPS)
        return float(10.0 ** min(max(e, lo), hi))
    cand = [m for m in (mags if mags is not None else _FILT_MAGS) if 10.0 ** lo <= m <= 10.0 ** hi] or [1.0]
    return float(draw(st.sampled_from(cand)) * draw(st.sampled_from([1.0, 0.5, 2.0, 10.0, 0.1])))


@st.composite
def data_spec(draw, big=False, offset=True, xpats=None, tpats=None, scales=True):
    spec = {"seed": draw(SEEDS),
            "x": draw(st.sampled_from(xpats or XPATS)),
            "t": draw(st.sampled_from(tpats or TPATS)),
            "xs": draw(scale()) if scales else 1.0,
            "ds": draw(scale()) if scales and draw(st.integers(0, 2)) == 0 else 1.0}
    if offset and draw(st.integers(0, 4)) == 0:
        spec["xo"] = draw(st.sampled_from([1.0, -1.0, 3.0, 10.0, -100.0, 1e4]))
    if offset and draw(st.integers(0, 4)) == 0:
        spec["do"] = draw(st.sampled_from([1.0, -1.0, 3.0, 10.0, -100.0, 1e4]))
    if draw(st.integers(0, 6)) == 0:
        spec["z"] = draw(st.sampled_from(["x", "d", "both", "dup", "neg"]))
    if draw(st.integers(0, 9)) == 0:         # whole samples of zeros
        spec["q"] = draw(st.sampled_from(["last", "last", "first", "some", "ends", "tail"]))
    return spec


def quiet_rows(spec, N):
    q = spec.get("q")
    rows = np.zeros(N, bool)
    if q and N:
        if q in ("last", "ends"):
            rows[-1] = True
        if q in ("first", "ends"):
            rows[0] = True
        if q == "some":
            rows = np.random.RandomState(spec["seed"] % 2 ** 31).random_sample(N) < 0.25
        if q == "tail":
            rows[N - N // 3:] = True
    return rows


def expand_x(spec, N, n):
    rs = np.random.RandomState(spec["seed"])
    p = spec["x"]
    g = rs.normal(0, 1, (N, n))
    if p == "ints":
        x = rs.randint(-3, 4, (N, n)).astype(float)
    elif p == "gauss":
        x = g
    elif p == "sparse":
        x = g * (rs.random_sample((N, n)) < 0.3)
    elif p == "onehot":
        x = np.zeros((N, n))
        x[np.arange(N), rs.randint(0, n, N)] = rs.normal(0, 1, N)
    elif p == "repeat":
        x = g[np.sort(rs.randint(0, max(1, N // 3), N))] if N else g
    elif p == "corr":
        x = rs.normal(0, 1, (N, 1)) * rs.normal(0, 1, (1, n)) + 0.01 * g
    elif p == "hist":
        s = np.zeros(N + n)
        v = rs.normal(0, 1, N + n)
        for i in range(1, N + n):
            s[i] = 0.8 * s[i - 1] + v[i]
        x = np.array([s[i:i + n] for i in range(N)])
    elif p == "mixedrows":
        x = g * 10.0 ** rs.uniform(-6, 3, (N, 1))
    elif p == "mixedcols":
        x = g * 10.0 ** rs.uniform(-4, 3, (1, n))
    elif p == "const":
        x = np.tile(rs.normal(0, 1, (1, n)), (N, 1))
    elif p == "binary":
        x = rs.randint(0, 2, (N, n)).astype(float)
    elif p == "sine":
        k = np.arange(N)[:, None]
        x = np.sin(k * rs.uniform(0.01, 2, (1, n)) + rs.uniform(0, 6, (1, n)))
    elif p == "ramp":
        x = (np.arange(N)[:, None] - N / 3.0) * rs.normal(0, 0.1, (1, n))
    elif p == "dupcols":
        x = np.repeat(rs.normal(0, 1, (N, (n + 1) // 2)), 2, axis=1)[:, :n]
    elif p == "bursts":
        x = g * np.repeat(rs.randint(0, 2, N // 5 + 1), 5)[:N, None]
    elif p == "heavy":
        x = np.clip(rs.standard_t(1.5, (N, n)), -1e3, 1e3)
    else:
        x = np.zeros((N, n))
    x = x * spec["xs"] + spec.get("xo", 0.0)
    z = spec.get("z")
    if z in ("x", "both") and N:
        x[rs.random_sample(N) < 0.3] = 0.0
    if z == "dup" and N > 1:
        i = rs.randint(0, N - 1)
        x[i + 1] = x[i]
    if z == "neg":
        x = np.where(x == 0, -0.0, x)
    return np.array(x, dtype=float)


def expand_d(spec, x, w0=None):
    N, n = x.shape
    rs = np.random.RandomState((spec["seed"] + 77) % (2 ** 31))
    t = spec["t"]
    ws = rs.normal(0, 1, n)
    base = x @ ws
    sc = max(float(np.std(base)) if N else 0.0, 1e-3 * spec["xs"])
    v = rs.normal(0, 1, N)
    if t == "linear":
        d = base + 0.1 * sc * v
    elif t == "exact":
        d = base
    elif t == "zeros":
        d = np.zeros(N)
    elif t == "noise":
        d = sc * v
    elif t == "ints":
        d = rs.randint(-3, 4, N).astype(float) * spec["xs"]
    elif t == "const":
        d = np.full(N, sc * (1 + v[0])) if N else v
    elif t == "spikes":
        d = base + 0.1 * sc * v + 1000 * sc * (rs.random_sample(N) < 0.08) * rs.choice([-1, 1], N)
    elif t == "drift":
        d = base + sc * 0.05 * np.arange(N)
    elif t == "switch":
        d = np.where(np.arange(N) < N // 2, base, x @ rs.normal(0, 1, n))
    elif t == "own":
        d = x @ (np.zeros(n) if w0 is None else w0) + 1e-3 * sc * v * (rs.random_sample(N) < 0.2)
    elif t == "scaledmix":
        d = base * 10.0 ** rs.uniform(-5, 3, N)
    else:                                   # lazy: the target changes only at times
        d = np.array(base)
        for i in range(1, N):
            if rs.random_sample() < 0.7:
                d[i] = d[i - 1]
    d = d * spec["ds"] + spec.get("do", 0.0)
    if spec.get("z") in ("d", "both") and N:
        d[rs.random_sample(N) < 0.3] = 0.0
    return np.array(d, dtype=float)


NASTY = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -0.0, 0.1, 1e-3, -1e-3, 1e-8, 1e3, -1e3, 1e-160, 0.25, 10.0]
NASTY += [s * v for v in mine.fresh_magnitudes("", 1e-12, 1e6)[:12] for s in (1, -1)]
VALUE = st.one_of(st.sampled_from(NASTY), st.integers(-9, 9).map(float),
                  st.floats(-4, 4, allow_nan=False, width=32).map(float))


@st.composite
def explicit_data(draw, n, N):
    x = draw(st.lists(st.lists(VALUE, min_size=n, max_size=n), min_size=N, max_size=N))
    d = draw(st.lists(VALUE, min_size=N, max_size=N))
    return {"X": x, "D": d}


@st.composite
def data(draw, n, N, **kw):
    if n * N <= 24 and draw(st.integers(0, 4)) == 0:
        return draw(explicit_data(n, N))
    return draw(data_spec(**kw))


def expand(spec, N, n, w0=None):
    """x (N, n) and d (N,) of a data description."""
    if "X" in spec:
        return np.array(spec["X"], dtype=float).reshape(N, n), np.array(spec["D"], dtype=float)
    x = expand_x(spec, N, n)
    d = expand_d(spec, x, w0)
    rows = quiet_rows(spec, N)
    x[rows] = 0.0
    d[rows] = 0.0
    return x, d


def data_label(spec):
    return "data:explicit" if "X" in spec else "x:%s" % spec["x"]


# ---------------------------------------------------------------- histories

def cuts(draw, N, most=5):
    """Lengths of consecutive calls that add up to N (each at least 1)."""
    if N <= 1:
        return [N]
    k = draw(st.integers(1, min(most, N)))
    if k == 1:
        return [N]
    pts = draw(st.sets(st.integers(1, N - 1), min_size=k - 1, max_size=k - 1))
    if N > 16 and draw(st.integers(0, 3)) == 0:         # a call of (nearly) as many samples as some constant says
        cand = mine.fresh("", 8, N - 1) or [s for s in _FILT_SIZES if 8 <= s < N]
        if cand:
            pts = set(list(pts)[1:] + [draw(st.sampled_from(cand))])
    pts = sorted(pts)
    return [b - a for a, b in zip([0] + pts, pts + [N])]


@st.composite
def ops(draw, N, modes=("run", "adapt", "online"), most=5):
    """A way of delivering N samples: list of [mode, length].

    run: one batch; adapt: one by one, adapt only; online: predict then adapt, one by one.
    """
    return [[draw(st.sampled_from(list(modes))), c] for c in cuts(draw, N, most)]
