"""Datasets for the checks of PCA and LDA."""
import numpy as np
from hypothesis import strategies as st

from . import gen


@st.composite
def spec(draw, pats):
    return {"seed": draw(gen.SEEDS), "p": draw(st.sampled_from(pats)),
            "sc": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e3, 1e-6, 1e6])),
            "off": draw(st.sampled_from([0.0, 0.0, 1.0, -10.0, 1000.0]))}


def expand(s, N, n):
    rs = np.random.RandomState(s["seed"])
    g = rs.normal(0, 1, (N, n))
    p = s["p"]
    if p == "corr":
        x = g @ rs.normal(0, 1, (n, n))
    elif p == "lowrank":
        r = rs.randint(1, n + 1)
        x = rs.normal(0, 1, (N, r)) @ rs.normal(0, 1, (r, n))
    elif p == "dup":
        x = g[:, rs.randint(0, n, n)]
    elif p == "ints":
        x = rs.randint(-4, 5, (N, n)).astype(float)
    elif p == "axes":
        # equal variances: points +-a on every axis
        x = np.zeros((N, n))
        for k in range(N):
            x[k, (k // 2) % n] = 1.0 if k % 2 else -1.0
    elif p == "equal":
        x, _ = np.linalg.qr(rs.normal(0, 1, (max(N, n), n)))
        x = x[:N] * np.sqrt(N)
    elif p == "mixed":
        x = g * 10.0 ** rs.uniform(-2, 2, (1, n))
    elif p == "constcol":
        x = g.copy()
        x[:, rs.randint(0, n)] = 3.0
    elif p == "heavy":
        x = np.clip(rs.standard_t(1.5, (N, n)), -1e3, 1e3)
    elif p == "const":
        x = np.tile(rs.randint(-3, 4, (1, n)), (N, 1)).astype(float)
    else:
        x = g
    return (x + s["off"] * np.round(rs.normal(0, 1, n))) * s["sc"]
