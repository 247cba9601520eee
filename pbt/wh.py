"""Weight histories for the detection checks."""
import numpy as np
from hypothesis import strategies as st

from . import gen, mine
from .lib import pa

PATS = ["walk", "intwalk", "intwalk", "jumps", "ramp", "quad", "filter", "const", "heavy", "settle", "burst", "noise",
        "mixed"]
EXACT = ("intwalk", "jumps", "ramp", "quad", "const")


@st.composite
def spec(draw, pats=PATS):
    s = {"seed": draw(gen.SEEDS), "p": draw(st.sampled_from(list(pats))),
         "sc": draw(st.sampled_from([0, 0, 0, 0, -1, 3, -4, 10, -10, -20, -33, 20])),
         "off": draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, -3.0, 100.0]))}
    if draw(st.integers(0, 9)) == 0:
        s["dup"] = True
    if draw(st.integers(0, 9)) == 0:
        s["hold"] = True
    return s


def expand(s, N, n):
    """History (N, n); scales are powers of two, so that patterns of integers stay exact."""
    rs = np.random.RandomState(s["seed"])
    p = s["p"]
    g = rs.normal(0, 1, (N, n))
    if p == "walk":
        w = np.cumsum(g, axis=0)
    elif p == "intwalk":
        w = np.cumsum(rs.randint(-3, 4, (N, n)), axis=0).astype(float)
    elif p == "jumps":
        w = np.cumsum(rs.randint(-8, 9, (N, n)) * (rs.random_sample((N, n)) < 0.15), axis=0).astype(float)
    elif p == "ramp":
        w = np.arange(N)[:, None] * rs.randint(-4, 5, (1, n)) + (rs.random_sample((N, n)) < 0.05)
    elif p == "quad":
        w = (np.arange(N)[:, None] - rs.randint(0, N + 1)) ** 2 * rs.randint(-2, 3, (1, n))
    elif p == "filter":
        x = rs.normal(0, 1, (N, n))
        d = x @ rs.normal(0, 1, n) + 0.1 * rs.normal(0, 1, N)
        d[rs.randint(0, N)] += 20
        w = pa.filters.FilterNLMS(n=n, mu=0.3, w=np.zeros(n)).run(d, x)[2]
    elif p == "const":
        w = np.tile(rs.randint(-5, 6, (1, n)), (N, 1))
    elif p == "heavy":
        w = np.cumsum(np.clip(rs.standard_t(1.2, (N, n)), -1e4, 1e4), axis=0)
    elif p == "settle":
        w = 3 - 3 * 0.8 ** np.arange(N)[:, None] * (1 + 0.1 * g)
    elif p == "burst":
        w = np.cumsum(g * np.repeat(rs.randint(0, 2, N // 6 + 1), 6)[:N, None], axis=0)
    elif p == "mixed":
        w = np.cumsum(g * 10.0 ** rs.uniform(-5, 2, (1, n)), axis=0)
    else:
        w = g
    w = np.array(w, dtype=float)
    if s.get("dup"):
        w[:, :] = w[:, :1]
    if s.get("hold") and N > 4:
        w[N // 2:] = w[N // 2]
    return w * 2.0 ** s["sc"] + s["off"]


def shape(draw, most=60, hi=1500, part="detection", lo=1, cells=20000):
    new = mine.fresh(part, max(lo, 8), 8000)
    c = draw(st.integers(0, 49))
    if new and c % 10 == 9:
        N = draw(st.sampled_from(new))
    elif c < 46:
        N = draw(st.integers(lo, most))
    elif c < 48:
        N = draw(st.sampled_from([v for v in gen.sizes_near_constants(part, lo, hi, 8000)]))
    else:
        N = draw(st.integers(lo, hi))
    n = draw(st.integers(1, 6)) if draw(st.integers(0, 19)) else draw(st.integers(1, 40))
    if draw(st.integers(0, 59)) == 0:
        n = draw(st.sampled_from([64, 65, 100, 128, 130, 256, 257, 300, 512, 600]
                                 + [v for v in gen.sizes_near_constants(part, 8, 1100)]))
        N = min(N, 40)
    huge = mine.fresh(part, 8001, 70000)
    if huge and draw(st.integers(0, 49)) == 23:
        return draw(st.sampled_from(huge)) + draw(st.sampled_from([0, 1, 9])), draw(st.integers(1, 2))
    if N * n > cells:
        N = max(lo, cells // n)
    return N, n


def window(draw, N):
    c = draw(st.integers(0, 19))
    new = mine.fresh("detection", 2, N)
    if new and c % 4 == 1:
        return draw(st.sampled_from(new))
    if c < 14:
        return draw(st.integers(1, max(1, min(N, 12))))
    if c < 18:
        return draw(st.integers(1, max(1, N)))
    return draw(st.sampled_from([N, N + 1, max(1, N - 1), 2 * N + 3]))


def given_as(w, how):
    """The same numbers in another representation."""
    if how == "list":
        return w.tolist()
    if how == "int" and np.array_equal(w, np.round(w)) and np.max(np.abs(w), initial=0) < 2 ** 40:
        return w.astype(np.int64)
    if how == "fortran":
        return np.asfortranarray(w)
    if how == "view":
        big = np.zeros((2 * w.shape[0], w.shape[1]))
        big[::2] = w
        return big[::2]
    return w


def differences(w, order):
    """|order-th difference| of rows order.. (the earlier rows are nan), and a bound of its rounding error."""
    D = np.full(w.shape, np.nan)
    T = np.zeros(w.shape)
    if order < len(w):
        D[order:] = np.abs(np.diff(w, n=order, axis=0))
    a = np.abs(w)
    for k in range(len(w)):
        T[k] = np.max(a[max(0, k - order):k + 1], axis=0) * 2.0 ** order * order * 2.3e-16
    return D, T
