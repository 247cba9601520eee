"""Calls of every part of the library, as data: strategies, and execution with hooks on arguments and results."""
import numpy as np
from hypothesis import strategies as st

from . import gen, kinds, mine
from .lib import pa

PRE = ["standardize", "standardize_os", "standardize_back", "input_from_history", "PCA", "PCA_components", "LDA",
       "LDA_discriminants"]
DET = ["learning_entropy", "learning_entropy_ms", "learning_entropy_ms", "ELBND"]
MET = ["MSE", "MAE", "RMSE", "logSE", "get_mean_error", "MSE2", "MAE2", "RMSE2", "logSE2", "get_mean_error2"]
FIL = ["filter_run", "filter_data", "filter_online", "pretrained_run"]
ANN = ["mlp_run", "mlp_test", "mlp_train", "mlp_online"]
ALL = PRE + DET + ["ESE"] + MET + FIL + ANN
RANDOM_DRAW = ("mlp_",)


OS = [[0.5, 2.0], [0, 1], [0.0, 1.0], [0.0, 2.0], [1.0, 1.0], [-3, -1]]
PATS = ["gauss", "gauss", "gauss", "ints", "ints", "constcol", "zeros", "duprows", "binary", "slow"]
SIZES = mine.sizes("", 1, 1200, 2500, (1, 2, 3, 50, 130))
NEW = mine.fresh("", 25, 2500)
ANN_ROWS = mine.sizes("ann", 20, 520, 0, (33, 64, 65, 100, 128, 200, 256, 300))
WINDOWS = [v - 1 for v in SIZES if 22 <= v <= 260] + [60, 99, 100]
PLAIN = ("LDA", "LDA_discriminants", "ESE")      # need data in general position


def twin(draw, c):
    """A call that is nearly, but not quite, another one."""
    t = dict(c)
    t["var"] = draw(st.sampled_from(["near", "near", "inner", "inner", "perm", "ends", "neg", "less", None]))
    if draw(st.integers(0, 2)) == 0:
        t["vary"] = draw(st.sampled_from(["x", "w", "d", "alpha", "e", "a", "b", "labels"]))
    if t["var"] is None:
        t["seed"] = draw(gen.SEEDS)
    for key, alt in (("m", [1, 2, 3]), ("order", [1, 2]), ("epochs", [1, 2]), ("agg", ["max", "sum"]),
                     ("of", ["MSE", "MAE", "RMSE"]), ("k", [1]), ("bias", [True, False]), ("mu", ["auto", 0.1]),
                     ("act", ["sigmoid", "tanh"]), ("o", ["safe", "some", "none", "all"]), ("w", ["zeros", "random", "given"])):
        if key in t and c["fn"] != "ESE" and draw(st.integers(0, 3)) == 0:
            t[key] = draw(st.sampled_from(alt))
    return t


@st.composite
def call(draw, names=ALL):
    fn = draw(st.sampled_from(list(names)))
    c = {"fn": fn, "seed": draw(gen.SEEDS), "N": draw(st.integers(1, 24)), "n": gen.tail(draw, 1, 5, 24),
         "sc": draw(st.sampled_from([1.0, 0.1, 100.0, 1e-3])), "pat": draw(st.sampled_from(PATS))}
    if fn not in FIL and draw(st.integers(0, 9)) == 0:
        c["n"] = draw(st.sampled_from([v for v in SIZES if v <= 40]))
    if NEW and draw(st.integers(0, 6)) == 3:
        c["N"] = draw(st.sampled_from(NEW))
        c["N"] = min(c["N"], 300 if fn in FIL + ANN else 2500)
    elif draw(st.integers(0, 11)) == 0:
        c["N"] = draw(st.sampled_from([v for v in SIZES if v <= (300 if fn in FIL + ANN else 2500)]))
    if fn in ("PCA", "PCA_components", "LDA", "LDA_discriminants"):
        c["n"] = min(12, max(2, c["n"]))
        c["N"] = max(2, c["N"]) if fn.startswith("PCA") else max(2 * c["n"] + 6, c["N"])
        c["k"] = draw(st.integers(1, c["n"] - 1))
        c["cl"] = draw(st.integers(1, 4))
        c["named"] = draw(st.booleans())
    elif fn in ("standardize_os", "standardize_back"):
        c["os"] = draw(st.sampled_from(OS))
    elif fn == "input_from_history":
        c["n"] = draw(st.integers(1, c["N"]))
        c["bias"] = draw(st.booleans())
    elif fn.startswith("learning_entropy"):
        c["m"] = gen.tail(draw, 1, 12, 60)
        c["order"] = gen.tail(draw, 1, 3, 8)
    elif fn == "ELBND":
        c["agg"] = draw(st.sampled_from(["max", "sum"]))
    elif fn == "ESE":
        c["m"] = draw(st.integers(11, 20)) if draw(st.integers(0, 4)) else draw(st.sampled_from(WINDOWS))
        c["N"] = c["m"] + draw(st.integers(1, 5))
        c["n"] = draw(st.integers(1, 2)) if draw(st.integers(0, 9)) else draw(st.integers(3, 14))
        c["pot"] = draw(st.sampled_from(["10%", "sqrt", "30%", "log10"]))
    elif fn.startswith("get_mean_error"):
        c["of"] = draw(st.sampled_from(["MSE", "MAE", "RMSE"]))
    elif fn in FIL:
        c["kind"] = draw(st.sampled_from(kinds.KINDS))
        c["w"] = draw(st.sampled_from(["zeros", "random", "given"]))
        c["N"] = max(2, c["N"])
        c["o"] = draw(st.sampled_from(["safe", "safe", "some", "none", "all"]))
    elif fn in ANN:
        c["layers"] = [gen.tail(draw, 1, 5, 24, "ann") for _ in range(gen.tail(draw, 1, 3, 6))]
        c["out"] = gen.tail(draw, 1, 3, 9)
        c["act"] = draw(st.sampled_from(["sigmoid", "tanh"]))
        c["mu"] = draw(st.sampled_from(["auto", 0.1]))
        c["shuffle"] = draw(st.booleans())
        c["epochs"] = gen.tail(draw, 1, 3, 12, "ann", 130)
        if draw(st.integers(0, 3)) == 0:
            c["N"] = draw(st.sampled_from(ANN_ROWS))
            c["layers"] = c["layers"][:2]
            c["layers"] = [min(v, 12) for v in c["layers"]]
            c["epochs"] = min(2, c["epochs"]) if c["N"] < 150 else 1
    return c


def arrays(c):
    """The array arguments of a call, as a dict."""
    a = _arrays(c)
    var = c.get("var")
    if not var:
        return a
    rs = np.random.RandomState((c["seed"] + 3) % 2 ** 31)
    for k, v in a.items():
        if v.dtype.kind != "f" or not v.size or k != c.get("vary", k):
            continue
        if var == "near":
            a[k] = v * (1 + 3e-3 * rs.normal(0, 1, v.shape))
        elif var == "less":
            a[k] = v + 1e-9 * rs.normal(0, 1, v.shape)
        elif var == "ends":
            u = v.copy()
            u[1:-1] = rs.normal(0, 1, u[1:-1].shape) * np.max(np.abs(v))
            a[k] = u
        elif var == "perm":
            a[k] = v[np.random.RandomState(len(v)).permutation(len(v))] if k != "w" or c["fn"] not in FIL else v
        elif var == "inner":        # the same numbers in another order, the first and the last where they were
            u = v.ravel().copy()
            u[1:-1] = u[1:-1][rs.permutation(max(0, u.size - 2))]
            a[k] = u.reshape(v.shape)
        elif var == "neg":
            a[k] = -v if k != "alpha" else v + 0.01
    return a


def shaped(c, g, rs):
    """A drawn array in the pattern of the call."""
    p = c.get("pat", "gauss")
    if c["fn"] in PLAIN or p == "gauss" or not g.size:
        return g
    if p == "ints":
        return rs.randint(-3, 4, g.shape) * c["sc"]
    if p == "constcol":
        g = g.copy()
        g[..., rs.randint(0, g.shape[-1])] = 3.0 * c["sc"]
        return g
    if p == "zeros":
        return np.zeros(g.shape)
    if p == "duprows":
        return g[np.sort(rs.randint(0, max(1, len(g) // 2), len(g)))]
    if p == "slow":
        return g[:1] * (1 + 1e-4 * rs.normal(0, 1, g.shape))
    return rs.randint(0, 2, g.shape) * c["sc"]


def _arrays(c):
    rs = np.random.RandomState(c["seed"])
    N, n, sc, fn = c["N"], c["n"], c["sc"], c["fn"]
    s = lambda *k: shaped(c, rs.normal(0, sc, k), rs)  # noqa: E731
    if fn.startswith("standardize"):
        return {"x": s(N + 1)}
    if fn == "input_from_history":
        return {"x": s(N)}
    if fn in ("PCA", "PCA_components"):
        return {"x": s(N, n)}
    if fn in ("LDA", "LDA_discriminants"):
        lab = rs.randint(0, c["cl"], N)
        x = s(N, n) + lab[:, None] * 0.3 * sc
        return {"x": x, "labels": np.array(["left", "right", "up", "down", "b", "a"])[lab] if c.get("named") else lab}
    if fn == "learning_entropy_ms":
        w, alpha = s(N, n), np.sort(rs.uniform(0.5, 3, 4))
        if c["seed"] % 2 and N > c["m"] + 1:     # sensitivities next to ratios that occur
            dw = np.abs(np.diff(w, axis=0, prepend=w[:1]))
            k = rs.randint(c["m"], N, 4)
            mean = np.array([np.mean(dw[i - c["m"]:i], axis=0) for i in k])
            q = np.max(dw[k], axis=1) / (mean[np.arange(4), np.argmax(dw[k], axis=1)] + 1e-9)
            alpha = np.sort(np.clip(q, 1e-3, 1e3)) * (1 + 1e-3 * rs.choice([-1, 1], 4))
        return {"w": w, "alpha": alpha}
    if fn == "learning_entropy" or fn == "ESE":
        return {"w": s(N, n)}
    if fn == "ELBND":
        return {"w": s(N, n), "e": s(N)}
    if fn in MET:
        return {"a": s(N), "b": s(N)} if fn.endswith("2") else {"a": s(N)}
    if fn in FIL:
        a = {"d": s(N), "x": s(N, n)}
        if c["w"] == "given":
            a["w"] = s(n)
        return a
    out = () if c["out"] == 1 else (c["out"],)
    return {"x": s(N, n), "d": s(N, *out), "x2": s(N, n)}


def opts_of(c):
    """Options of a filter call; the step size follows the data, so that nothing diverges."""
    o = {}
    kind = c["kind"]
    if kind in kinds.POWER_MU:
        o["mu"] = 0.02 / (c["n"] * max(c["sc"], 1) ** 4)
    if kind == "RLS":
        o["mu"] = 0.99
    if kind == "OCNLMS":
        o["mem"] = 5
    if kind.startswith("VSLMS"):
        o["ro"] = 1e-4 / max(c["sc"], 1) ** 8
    how = c.get("o", "safe")
    if how == "none":
        return {}
    full = dict(kinds.DEFAULTS[kind])
    if how == "some":           # one option, or all but one, besides the defaults
        k = sorted(full)[c["seed"] % len(full)]
        return {k: full[k] * 0.5 if k not in ("order", "mem", "alpha") else full[k] + 1}
    if how == "all":
        full.update(o)
        return full
    return o


def execute(c, args, touch=None):
    """Makes the call with the given arrays; touch(list of results so far) is called between steps of longer calls.

    Returns the list of result arrays, as the library returned them.
    """
    fn = c["fn"]
    P, D, M, F = pa.preprocess, pa.detection, pa.misc, pa.filters
    touch = touch or (lambda *a: None)
    a = args
    if fn == "standardize":
        return [P.standardize(a["x"])]
    if fn == "standardize_os":
        return [P.standardize(a["x"], offset=c.get("os", OS[0])[0], scale=c.get("os", OS[0])[1])]
    if fn == "standardize_back":
        return [P.standardize_back(a["x"], *c.get("os", OS[0]))]
    if fn == "input_from_history":
        return [P.input_from_history(a["x"], c["n"], bias=c["bias"])]
    if fn == "PCA":
        return [P.PCA(a["x"], c["k"])]
    if fn == "PCA_components":
        return [P.PCA_components(a["x"])]
    if fn == "LDA":
        return [P.LDA(a["x"], a["labels"], c["k"])]
    if fn == "LDA_discriminants":
        return [P.LDA_discriminants(a["x"], a["labels"])]
    if fn == "learning_entropy":
        return [D.learning_entropy(a["w"], m=c["m"], order=c["order"])]
    if fn == "learning_entropy_ms":
        return [D.learning_entropy(a["w"], m=c["m"], order=c["order"], alpha=a["alpha"])]
    if fn == "ELBND":
        return [D.ELBND(a["w"], a["e"], function=c["agg"])]
    if fn == "ESE":
        return [D.ESE(a["w"], window=c["m"], pot_method=c["pot"])]
    if fn in MET:
        name = fn.rstrip("2")
        kw = {"function": c["of"]} if name == "get_mean_error" else {}
        return [getattr(M, name)(a["a"], a["b"], **kw) if fn.endswith("2") else getattr(M, name)(a["a"], **kw)]
    if fn in FIL:
        w = a["w"] if c["w"] == "given" else c["w"]
        o = opts_of(c)
        if fn == "filter_data":
            return list(F.filter_data(a["d"], a["x"], model=c["kind"], w=w, **o))
        f = F.AdaptiveFilter(model=c["kind"], n=c["n"], w=w, **o)
        touch([])
        if fn == "filter_run":
            r = list(f.run(a["d"], a["x"]))
            touch(r)
            r2 = list(f.run(a["d"], a["x"]))
            return r + r2 + [np.array(f.w)]
        if fn == "pretrained_run":
            r = list(f.pretrained_run(a["d"], a["x"], ntrain=0.5, epochs=2))
            return r + [np.array(f.w)]
        out = []
        for k in range(c["N"]):
            out.append(f.predict(a["x"][k]))
            touch([])
            f.adapt(a["d"][k], a["x"][k])
            touch([])
        return out + [np.array(f.w)]
    nn = pa.ann.NetworkMLP(c["layers"], c["n"], outputs=c["out"], activation=c["act"], mu=c["mu"])
    touch([])
    if fn == "mlp_run":
        r = [nn.run(a["x"])]
        touch(r)
        return r + [nn.run(a["x2"])]
    if fn == "mlp_test":
        r = [nn.test(a["x"], a["d"])]
        touch(r)
        return r + [nn.run(a["x2"])]
    if fn == "mlp_train":
        r = list(nn.train(a["x"], a["d"], epochs=c["epochs"], shuffle=c["shuffle"]))
        touch(r)
        return r + [nn.run(a["x2"])]
    out = []
    for k in range(c["N"]):
        y = nn.predict(a["x"][k])
        out.append(y)
        touch([])
        out.append(nn.update(a["d"][k]))
        touch([])
    return out + [nn.run(a["x2"])]


def draws_randomness(c):
    """Whether the call may use NumPy's random stream."""
    return c["fn"] in ANN or c.get("w") == "random"


def frozen(results):
    return [np.array(r, copy=True) for r in results]
