"""The filter kinds: classes, documented options and defaults, and generators of configurations."""
import numpy as np
from hypothesis import strategies as st

from . import gen, mine
from .lib import pa

# documented options with their defaults
DEFAULTS = {
    "AP": {"mu": 0.01, "order": 5, "ifc": 0.001},
    "GMCC": {"mu": 0.01, "lambd": 0.03, "alpha": 2},
    "GNGD": {"mu": 1.0, "eps": 1.0, "ro": 0.1},
    "Llncosh": {"mu": 0.01, "lambd": 3},
    "LMF": {"mu": 0.01},
    "LMS": {"mu": 0.01},
    "NLMF": {"mu": 0.1, "eps": 0.001},
    "NLMS": {"mu": 0.1, "eps": 0.001},
    "NSSLMS": {"mu": 0.1, "eps": 0.001},
    "OCNLMS": {"mu": 0.1, "eps": 1.0, "mem": 100},
    "RLS": {"mu": 0.1, "eps": 0.001},
    "SSLMS": {"mu": 0.01},
    "VSLMS_Ang": {"mu": 1.0, "ro": 0.0002, "a": 0.95},
    "VSLMS_Benveniste": {"mu": 1.0, "ro": 0.1},
    "VSLMS_Mathews": {"mu": 1.0, "ro": 0.1},
}
KINDS = sorted(DEFAULTS)
# unnormalised kinds: a usable step size depends on the power of the input
POWER_MU = {"LMS", "LMF", "GMCC", "Llncosh", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"}


def cls(kind):
    return getattr(pa.filters, "Filter" + kind)


_SIZES = [s for s in mine.sizes("filters", 1, 60)] or [1]


RANGE = {"eps": (1e-9, 100), "lambd": (1e-3, 100), "alpha": (1, 6), "ro": (0, 1), "a": (0, 1), "ifc": (1e-4, 10),
         "order": (1, 24), "mem": (2, 60)}


@st.composite
def option(draw, kind, name):
    pick = st.sampled_from
    lo, hi = RANGE[name] if name != "mu" else (0.05, 1) if kind == "RLS" else (0, 2)
    new = mine.fresh_magnitudes("filters", max(lo, 1e-9) / 2, hi * 2)
    if new and name not in ("order", "mem") and draw(st.integers(0, 9)) == 0:
        v = draw(pick(list(new))) * draw(pick([1.0, 1.001, 0.999, 0.5, 2.0]))
        return float(min(max(v, lo), hi))
    if name not in ("order", "mem") and draw(st.integers(0, 9)) == 0:     # any number of the range
        lo, hi = {"eps": (-6, 2), "lambd": (-2, 1), "alpha": (1, 6), "ro": (-5, 0), "a": (0, 1), "ifc": (-4, 1),
                  "mu": (0.05, 1)}[name]
        if name == "mu" and kind in ("NLMS", "AP", "GNGD", "OCNLMS"):
            lo, hi = 0, 2
        v = lo + (hi - lo) * draw(st.integers(0, 1000)) / 1000.0
        return float(10.0 ** v) if name in ("eps", "lambd", "ro", "ifc") else float(v)
    if name == "mu":
        if kind == "RLS":
            return draw(pick([0.99, 1.0, 0.9, 0.95, 0.98, 0.999, 0.5, 0.7, 0.1, 0.3]))
        if kind in ("NLMS", "AP", "GNGD", "OCNLMS"):
            return draw(pick([0.1, 0.5, 1.0, 0.01, 1.5, 2.0, 0.9, 0.001, 0.0, 1e-6, 1.99]))
        if kind in ("SSLMS", "NSSLMS"):
            return draw(pick([0.1, 0.01, 0.001, 1.0, 0.5, 0.0, 1e-6]))
        return draw(pick([0.01, 0.1, 0.001, 1.0, 0.5, 0.05, 1e-4, 0.0, 1e-6, 2.0]))
    if name == "eps":
        if kind == "RLS":
            return draw(pick([0.1, 1.0, 0.5, 0.001, 0.01, 10.0, 100.0, 1e-4]))
        return draw(pick([1.0, 0.001, 0.1, 1e-6, 10.0, 1e-3, 0.5, 1e-9, 100.0]))
    if name == "lambd":
        return draw(pick([0.03, 1.0, 3, 0.5, 0.1, 2, 10.0, 1e-3, 100.0]))
    if name == "alpha":
        return draw(pick([2, 1.5, 3, 4, 1, 2.5, 1.1, 2.0]))
    if name == "ro":
        return draw(pick([0.0002, 0.1, 0.01, 0.001, 0.5, 0.0, 1.0, 1e-5]))
    if name == "a":
        return draw(pick([0.95, 0.9, 0.5, 0.99, 0.0, 1.0]))
    if name == "order":
        return draw(st.one_of(st.integers(1, 6), st.integers(1, 12), pick([s for s in _SIZES if s <= 24] or [1])))
    if name == "ifc":
        return draw(pick([0.001, 0.1, 1.0, 0.01, 1e-4, 10.0, 0.001, 0.1, 1.0, 0.01, 100.0, 1e4]))
    if name == "mem":
        return draw(st.one_of(st.integers(2, 9), st.integers(2, 30), pick([s for s in _SIZES if s >= 2] or [2])))
    raise KeyError(name)


@st.composite
def config(draw, kinds=KINDS, n=None, stable=True):
    """{"kind", "n", "w", "opts"[, "rel"]}. `rel` asks for a step size relative to the input power."""
    kind = draw(st.sampled_from(list(kinds)))
    n = gen.filter_size(draw) if n is None else n
    opts = {}
    mask = draw(st.integers(0, 9))
    for name in DEFAULTS[kind]:
        if mask >= 2 or draw(st.booleans()):
            opts[name] = draw(option(kind, name))
    if kind == "OCNLMS" and "mem" not in opts and draw(st.integers(0, 3)):
        opts["mem"] = draw(option(kind, "mem"))
    c = {"kind": kind, "n": n, "opts": opts, "w": draw(weights(n))}
    if stable and kind in POWER_MU and draw(st.integers(0, 9)) < 7:
        c["rel"] = draw(st.sampled_from([0.5, 0.1, 1.0, 0.01, 0.3, 0.05, 1.5]))
        opts.pop("mu", None)
    return c


@st.composite
def weights(draw, n, hi=40):
    c = draw(st.integers(0, 9))
    if c < 3:
        return "zeros"
    if c < 5:
        return "random"
    if c < 8 or n > 6:
        return {"seed": draw(gen.SEEDS), "s": draw(st.sampled_from([1.0, 0.1, 10.0, 1e-3, 100.0, 1e-9, 1e4]))}
    return draw(st.lists(gen.VALUE, min_size=n, max_size=n))


def w_value(spec, n):
    """The initial weights as an array (None: chosen by the library)."""
    if isinstance(spec, str):
        return np.zeros(n) if spec == "zeros" else None
    if isinstance(spec, dict):
        return np.random.RandomState(spec["seed"]).normal(0, 1, n) * spec["s"]
    return np.array(spec, dtype=float)


def options(c, x, d=None):
    """Keyword options of a configuration for the given data (resolves relative step sizes)."""
    o = dict(c["opts"])
    if "rel" in c:
        N = len(x)
        p = float(np.max(np.sum(x * x, axis=1))) if N else 1.0
        p = p if p > 0 else 1.0
        mu = c["rel"] / max(p, 1e-250)
        kind = c["kind"]
        if kind == "LMF":
            q = 1.0
            if d is not None and len(d):
                q = float(np.max(np.abs(d))) ** 2
            q = q if q > 0 else 1.0
            mu = mu / max(4 * q, 1e-250)
        elif kind == "Llncosh":
            mu = mu / (abs(o.get("lambd", 3)) or 1.0)
        elif kind == "GMCC":
            mu = mu / (o.get("lambd", 0.03) * o.get("alpha", 2))
        elif kind.startswith("VSLMS"):
            q = float(np.max(np.abs(d))) ** 2 if d is not None and len(d) else 1.0
            q = q if q > 0 else 1.0
            ro = o.get("ro", DEFAULTS[kind]["ro"]) * mu / max(p * q, 1e-250)
            o["ro"] = float(min(ro, 1e30))
        mu = float(mu)
        o["mu"] = mu if np.isfinite(mu) and mu < 1e30 else 1e30
    return o


def guard(c, x):
    """Keeps the data of the affine projection in the range where its matrix is invertible in double precision."""
    if c["kind"] != "AP" or not len(x):
        return x
    ifc = c["opts"].get("ifc", 0.001)
    order = c["opts"].get("order", 5)
    top = float(np.max(np.sum(x * x, axis=1))) * order
    if top > 1e8 * ifc:
        x = x * np.sqrt(1e8 * ifc / top)
    return x


def make(c, opts, seed=4321):
    """A fresh filter; weights drawn by the library come from a stated seed."""
    w = c["w"]
    if w == "random":
        np.random.seed(seed)
        arg = "random"
    elif w == "zeros":
        arg = "zeros"
    else:
        arg = w_value(w, c["n"])
    return cls(c["kind"])(n=c["n"], w=arg, **opts)


def start_weights(c, seed=4321):
    """The weights make() starts from, as the documentation says (None for drawn ones)."""
    return w_value(c["w"], c["n"])


def label(c):
    return "kind:" + c["kind"]
