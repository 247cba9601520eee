"""C31: malformed arguments of helper functions are refused."""
import numpy as np
from hypothesis import strategies as st

from .. import net
from ..lib import Violation, pa

ID = "C31"
BUDGET = {"quick": 1500, "thorough": 12000}
RULE = ("case = one malformed argument of one helper function (or valid arguments, which must be accepted), a refused "
        "network call being placed in a history and compared with a twin that never got it. Non-trivial: something had "
        "to be refused")
SERIES = ["words", "ragged", "object", "dict", "text", "mixed", "function", "nested", "strings"]
NUMBERS = ["abc", "list", "dict", "object", "complex", "array", "empty", "tuple", "function"]


def bad_series(kind, N):
    return {"words": ["a"] * N, "ragged": [[1.0, 2.0], [1.0]], "object": object(), "dict": {"a": 1}, "text": "series",
            "mixed": [1.0] * N + ["x"], "function": len, "nested": [[1.0], 2.0, [3.0, 4.0]],
            "strings": np.array(["p", "q"])}[kind]


def bad_number(kind):
    return {"abc": "abc", "list": [1.0, 2.0], "dict": {"a": 1}, "object": object(), "complex": 1j,
            "array": np.array([1.0, 2.0]), "empty": "", "tuple": (1.0, 2.0), "function": len}[kind]


@st.composite
def cases_(draw, tier):
    fn = draw(st.sampled_from(["standardize", "standardize", "standardize_back", "standardize_back", "history", "mu",
                               "net", "net", "net", "valid"]))
    case = {"fn": fn, "N": draw(st.integers(1, 12)), "api": draw(st.sampled_from(["pa", "preprocess"]))}
    if fn in ("standardize", "standardize_back"):
        case["arg"] = draw(st.sampled_from(["x", "offset", "scale"]))
        case["bad"] = draw(st.sampled_from(SERIES if case["arg"] == "x" else NUMBERS))
        if fn == "standardize_back" and case["arg"] != "x" and draw(st.integers(0, 4)) == 0:
            case["bad"] = "none"
        case["other"] = draw(st.booleans())
    elif fn == "history":
        case["bad"] = draw(st.sampled_from(SERIES))
        case["n"] = draw(st.integers(1, 3))
        case["bias"] = draw(st.booleans())
    elif fn == "mu":
        case["bad"] = draw(st.sampled_from(["word", "none", "list", "dict", "object", "AUTO", "empty", "complex"]))
        case["net"] = draw(net.shape())
    elif fn in ("net", "valid"):
        case["net"] = draw(net.shape())
        case["data"] = draw(net.data_spec())
        case["call"] = draw(st.sampled_from(["train", "test"]))
        case["what"] = draw(st.sampled_from(["samples", "samples", "inputs", "inputs", "outputs", "dimension x",
                                             "dimension d"]))
        case["by"] = draw(st.sampled_from([-1, 1, 2, 3]))
        case["list"] = draw(st.booleans())
        case["before"] = draw(st.booleans())
        case["middle"] = draw(st.booleans())
        case["shuffle"] = draw(st.booleans())
        case["reps"] = draw(st.integers(1, 3))
    return case


def cases(tier):
    return cases_(tier)


def refused(call, what):
    try:
        r = call()
    except ValueError:
        return
    except Exception as exc:
        raise Violation("%s raises %s (%s) instead of a ValueError" % (what, type(exc).__name__, exc))
    raise Violation("%s is not refused, the result is %r" % (what, r if np.size(r) < 8 else type(r)))


def check(case):
    fn, N = case["fn"], case["N"]
    lab = ["fn:" + fn]
    mod = pa if case["api"] == "pa" else pa.preprocess
    x = np.arange(N) * 0.5 + 1
    if fn in ("standardize", "standardize_back"):
        kw = {"offset": 0.5, "scale": 2.0} if fn == "standardize_back" or case["other"] else {}
        if case["arg"] == "x":
            x = bad_series(case["bad"], N)
        else:
            kw[case["arg"]] = None if case["bad"] == "none" else bad_number(case["bad"])
        refused(lambda: getattr(mod, fn)(x, **kw), "%s with a malformed %s (%s)" % (fn, case["arg"], case["bad"]))
        lab.append("%s:%s" % (case["arg"], case["bad"]))
        return {"labels": lab}
    if fn == "history":
        refused(lambda: mod.input_from_history(bad_series(case["bad"], N), case["n"], bias=case["bias"]),
                "input_from_history of a malformed series (%s)" % case["bad"])
        return {"labels": lab + ["a:" + case["bad"]]}
    if fn == "mu":
        bad = {"word": "fast", "none": None, "list": [0.1, 0.2], "dict": {"mu": 1}, "object": object(), "AUTO": "AUTO",
               "empty": "", "complex": 1j}[case["bad"]]
        c = case["net"]
        refused(lambda: pa.ann.NetworkMLP(list(c["layers"]), c["n"], outputs=c["out"], mu=bad),
                "a network with the learning rate %s" % case["bad"])
        return {"labels": lab + ["mu:" + case["bad"]]}
    return check_net(case, lab)


def malformed(case, x, d):
    """The arguments with one thing wrong, or None where that is not possible."""
    c, N = case["net"], case["N"]
    what, by = case["what"], case["by"]
    if what == "samples":
        M = max(1, N + by)
        if M == N:
            M = N + 1
        if case["list"]:
            return np.vstack([x] * 4)[:M], d
        return x, np.concatenate([d] * 4)[:M] if M <= 4 * N else d[:0]
    if what == "inputs":
        M = max(1, c["n"] + by)
        if M == c["n"]:
            M += 1
        return np.hstack([x] * 4 + [x[:, :1]] * 4)[:, :M], d
    if what == "outputs":
        if c["out"] == 1:
            return x, np.stack([d] * max(2, by), axis=1)
        M = max(1, c["out"] + by)
        if M == c["out"]:
            M += 1
        return x, np.hstack([d] * 4)[:, :M]
    if what == "dimension d":
        if c["out"] == 1:
            return x, d[:, None] if by > 0 else d[:, None, None]
        return x, d[:, 0].copy() if by > 0 else d[:, :, None]
    if by > 0:
        return x[:, :, None], d
    return x[:, 0].copy(), d


def check_net(case, lab):
    c, N = case["net"], case["N"]
    x, d = net.data(case["data"], N, c["n"], c["out"])
    a, b = net.make(c), net.make(c)
    if case["before"]:
        a.train(x, d, epochs=1)
        b.train(x, d, epochs=1)
    if case["middle"]:          # the call comes between a prediction and the update for it
        a.predict(x[N // 2])
        b.predict(x[N // 2])
    desc = "%s of %s->%s->%d" % (case["call"], c["n"], c["layers"], c["out"])
    if case["fn"] == "valid":
        if case["call"] == "train":
            a.train(x.tolist() if case["list"] else x, d, epochs=1)
            b.train(x, d, epochs=1)
        else:
            a.test(x.tolist() if case["list"] else x, d)
        what = "valid data"
    else:
        bx, bd = malformed(case, x, d)
        what = "wrong %s" % case["what"]
        if case["list"]:
            bx = bx.tolist()
        for _ in range(case["reps"]):
            keep = np.random.get_state()
            if case["call"] == "train":
                refused(lambda: a.train(bx, bd, epochs=2, shuffle=case["shuffle"]), "%s with %s" % (desc, what))
            else:
                refused(lambda: a.test(bx, bd), "%s with %s" % (desc, what))
            np.random.set_state(keep)
    for p, q in zip(net.weights(a), net.weights(b)):
        if not np.array_equal(p, q, equal_nan=True):
            raise Violation("%s: the network is changed by a call with %s that was refused" % (desc, what))
    if case["middle"] and case["fn"] == "net":
        ea, eb = a.update(d[N // 2]), b.update(d[N // 2])
        if not np.array_equal(ea, eb, equal_nan=True) or not all(
                np.array_equal(p, q, equal_nan=True) for p, q in zip(net.weights(a), net.weights(b))):
            raise Violation("%s: the update for the prediction before a refused call with %s differs" % (desc, what))
    ya, yb = a.run(x), b.run(x)
    a.train(x, d, epochs=1)
    b.train(x, d, epochs=1)
    if not np.array_equal(ya, yb, equal_nan=True) or not np.array_equal(a.run(x), b.run(x), equal_nan=True):
        raise Violation("%s: the network behaves differently after a refused call with %s" % (desc, what))
    return {"labels": lab + ["call:" + case["call"], what], "nontrivial": case["fn"] == "net"}
