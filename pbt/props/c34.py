"""C34: copies of a filter or network continue like the original, independently of it."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds, net
from ..lib import Violation

ID = "C34"
BUDGET = {"quick": 900, "thorough": 8000}
RULE = ("case = a history of calls during which, between drawn calls, the filter or network is replaced by a deep copy or a "
        "pickled and restored one, while the objects left behind (or the copies, the original going on) learn something "
        "else; results are compared with a history without copies. Non-trivial: a copy was made after learning began and "
        "something was compared after it")
HOW = ["deepcopy", "pickle2", "pickle4", "pickle5"]


def clone(o, how):
    if how == "deepcopy":
        return copy.deepcopy(o)
    return pickle.loads(pickle.dumps(o, protocol=int(how[-1])))


@st.composite
def cases_(draw, tier):
    if draw(st.integers(0, 3)):
        case = draw(common.hist_case(hi=400, most=5, lo=2))
        k = len(case["ops"])
        if k == 1:
            N = case["N"]
            a = draw(st.integers(1, N - 1))
            m = case["ops"][0][0]
            case["ops"] = [[m, a], [draw(st.sampled_from(common.MODES)), N - a]]
            k = 2
        case["what"] = "filter"
        case["how"] = [draw(st.sampled_from(HOW + [None])) for _ in range(k - 1)]
        if not any(case["how"]):
            case["how"][-1] = "deepcopy"
    else:
        case = {"what": "net", "net": draw(net.shape()), "data": draw(net.data_spec()),
                "N": gen.tail(draw, 1, 12, 150, "ann"),
                "ops": draw(st.lists(st.sampled_from(["train", "test", "run", "predict", "update", "train", "update"]),
                                     min_size=2, max_size=6))}
        case["how"] = [draw(st.sampled_from(HOW + [None])) for _ in case["ops"]]
    case["stay"] = draw(st.booleans())          # go on with the original, the copies being the ones that learn rubbish
    case["junk"] = draw(st.booleans())
    return case


def cases(tier):
    return cases_(tier)


def check(case):
    return check_filter(case) if case["what"] == "filter" else check_net(case)


def check_filter(case):
    c, x, d, opts = hist.prepare(case)
    n, N = c["n"], len(d)
    A = hist.drive(kinds.make(c, opts), case["ops"], x, d)
    xp, dp = hist.perturbed(c, x, d)
    P = hist.drive(kinds.make(c, opts), case["ops"], xp, dp)
    f = kinds.make(c, opts)
    B = hist.Rec(N, n)
    rs = np.random.RandomState(5)
    at = 0
    left = []
    for (mode, ln), how in zip(case["ops"], [None] + case["how"]):
        if how:
            g = clone(f, how)
            if type(g) is not type(f):
                raise Violation("the copy of a %s is a %s" % (type(f).__name__, type(g).__name__))
            if case["stay"]:
                f, g = g, f
            f, g = g, f                              # g is left behind
            if case["junk"]:
                g.w = np.array(g.w) + 1.0
                for _ in range(3):
                    g.adapt(float(rs.normal()), rs.normal(0, 1, n))
                g.run(rs.normal(0, 1, 3), rs.normal(0, 1, (3, n)))
            left.append((g, np.array(g.w, copy=True)))
        hist.drive(f, [[mode, ln]], x, d, B, at)
        at += ln
    B.end = np.array(f.w, dtype=float)
    for g, w in left:
        if not np.array_equal(g.w, w, equal_nan=True):
            raise Violation("%s: the weights of an object that was copied change when its copy (or original) learns"
                            % c["kind"])
    wt, H = hist.tolerance(A, P)
    H = min(H, hist.tie_horizon(c, opts, x, d, A, B))
    hist.same(A, B, x, d, wt, H, "%s without and with %s between calls %s" % (
        c["kind"], " and ".join(sorted({h for h in case["how"] if h})), case["ops"]))
    cut = case["ops"][0][1]
    return {"labels": common.labels(case) + ["filter"] + ["how:" + h for h in case["how"] if h],
            "nontrivial": H > cut and bool(np.any(A.w[:H] != A.w[:1]) or N == 2)}


def check_net(case):
    c = case["net"]
    x, d = net.data(case["data"], case["N"], c["n"], c["out"])
    N = len(x)
    rs = np.random.RandomState(8)

    def go(xx, dd, copies):
        nn = net.make(c)
        out = []
        for i, op in enumerate(case["ops"]):
            how = case["how"][i]
            if copies and how:
                mm = clone(nn, how)
                if case["stay"]:
                    nn, mm = mm, nn
                nn, mm = mm, nn
                if case["junk"]:
                    mm.train(rs.normal(0, 1, (2, c["n"])), d[:1].repeat(2, axis=0) + 1.0, epochs=1)
            k = i % N
            if op == "train":
                out += list(nn.train(xx, dd, epochs=1))
            elif op == "test":
                out.append(nn.test(xx, dd))
            elif op == "run":
                out.append(nn.run(xx))
            elif op == "predict":
                out.append(np.array(nn.predict(xx[k])))
            else:
                # a copy may also come between the prediction and the update
                nn.predict(xx[k])
                if copies and how:
                    nn = clone(nn, how)
                out.append(np.array(nn.update(dd[k])))
            out += net.weights(nn)
        return out

    A, B = go(x, d, False), go(x, d, True)
    P = go(x * (1 + 1e-13 * np.random.RandomState(4).choice([-1, 1], x.shape)), d, False)
    for a, b, p in zip(A, B, P):
        a, b, p = (np.asarray(v, dtype=float) for v in (a, b, p))
        if a.shape != b.shape:
            raise Violation("network: results have shapes %s and %s without and with copies" % (a.shape, b.shape))
        if not np.all(np.isfinite(a)) or np.max(np.abs(a), initial=0) > 1e50:
            break
        t = 1e-9 * np.max(np.abs(a), initial=0) + 1e3 * np.max(np.abs(a - p), initial=0)
        if not np.max(np.abs(a - b), initial=0) <= t:
            raise Violation("network (%s): results differ without and with copies %s" % (case["ops"], case["how"]))
    return {"labels": net.labels(c) + ["network"] + ["how:" + h for h in case["how"] if h],
            "nontrivial": any(case["how"])}


