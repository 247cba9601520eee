"""C15: callers' data and results are never shared with or altered by the library."""
import numpy as np
from hypothesis import strategies as st

from .. import calls, common, gen, hist, kinds
from ..lib import Violation, pa

ID = "C15"
BUDGET = {"quick": 1220, "thorough": 8000}
RULE = ("case = (a) a filter history in which every buffer passed in (initial weights, data, vectors) and a part of the "
        "results is overwritten after each call, and other instances learn in between, against an undisturbed twin; "
        "(b) the same for one or more network instances; (c) one call of any library function whose arguments may not "
        "change and whose results may not depend on what happens to them later. Non-trivial: something was overwritten "
        "and at least one later result compared")


@st.composite
def cases_(draw, tier):
    what = draw(st.sampled_from(["filter"] * 4 + ["net", "call", "call"]))
    if what == "filter":
        case = draw(common.hist_case(hi=600, most=6))
        case["junk"] = draw(st.sampled_from(["nan", "big", "zero", "neg"]))
        case["others"] = draw(st.lists(st.sampled_from(kinds.KINDS), max_size=2)) + [case["cfg"]["kind"]]
        case["buf"] = draw(st.booleans())
        case["scribble"] = draw(st.booleans())
    elif what == "net":
        case = {"net": draw(calls.call(calls.ANN)), "junk": draw(st.sampled_from(["nan", "big", "zero"])),
                "second": draw(st.booleans())}
    else:
        case = {"call": draw(calls.call(calls.ALL)), "between": draw(st.lists(calls.call(), max_size=2)),
                "junk": draw(st.sampled_from(["nan", "big", "zero"]))}
        if draw(st.booleans()):
            case["between"].append(calls.twin(draw, case["call"]))
    case["what"] = what
    return case


def cases(tier):
    return cases_(tier)


def spoil(a, junk):
    if not isinstance(a, np.ndarray) or a.size == 0:
        return
    if a.dtype.kind in "iu":
        a[...] = 7
    elif a.dtype.kind == "f":
        if junk == "neg":
            a *= -3
            a += 1
        else:
            a[...] = {"nan": np.nan, "big": 1e30, "zero": 0.0}[junk]


def check(case):
    return {"filter": check_filter, "net": check_net, "call": check_call}[case["what"]](case)


def check_filter(case):
    c, x, d, opts = hist.prepare(case)
    n, N = c["n"], len(d)
    junk = case["junk"]
    w = kinds.start_weights(c)
    np.random.seed(4321)
    warg = c["w"] if isinstance(c["w"], str) else w.copy()
    f = kinds.cls(c["kind"])(n=n, w=warg, **opts)
    np.random.seed(4321)
    g = kinds.cls(c["kind"])(n=n, w=c["w"] if isinstance(c["w"], str) else w.copy(), **opts)
    if isinstance(warg, np.ndarray):
        spoil(warg, junk)
    rs = np.random.RandomState(3)
    others = []
    for kd in case["others"]:
        o = dict(opts) if kd == c["kind"] else {}
        others.append(kinds.cls(kd)(n=n, w=np.ones(n) * 0.3, **o))
    vb, db = np.zeros(n), np.zeros(1)
    kept = []
    A, B = hist.Rec(N, n), hist.Rec(N, n)
    at = 0

    def noise():
        for o in others:
            o.adapt(float(rs.normal()), rs.normal(0, 1, n))
            o.run(rs.normal(0, 1, 2), rs.normal(0, 1, (2, n)))

    for mode, ln in case["ops"]:
        b = at + ln
        hist.drive(g, [[mode, ln]], x, d, B, at)
        if mode == "run":
            bx, bd = x[at:b].copy(), d[at:b].copy()
            y, e, ww = f.run(bd, bx)
            if not (np.array_equal(bx, x[at:b], equal_nan=True) and np.array_equal(bd, d[at:b], equal_nan=True)):
                raise Violation("%s: a batch run changed its arguments" % c["kind"])
            A.y[at:b], A.e[at:b], A.w[at:b] = y, e, ww
            if case["scribble"]:
                for r in (y, e, ww):
                    spoil(r, junk)
            else:
                kept += [(r, np.array(r, copy=True)) for r in (y, e, ww)]
            spoil(bx, junk)
            spoil(bd, junk)
        else:
            for k in range(at, b):
                A.w[k] = f.w
                if case["buf"]:
                    v, dv = vb, db          # one buffer reused for every sample
                else:
                    v, dv = np.zeros(n), np.zeros(1)
                v[:], dv[:] = x[k], d[k]
                if mode == "online":
                    A.y[k] = f.predict(v)
                    A.e[k] = d[k] - A.y[k]
                    spoil(v, junk)
                    v[:] = x[k]
                f.adapt(dv[0], v)
                if not np.array_equal(v, x[k]):
                    raise Violation("%s: adapt changed its argument" % c["kind"])
                spoil(v, junk)
                spoil(dv, junk)
                if k % 7 == 0:
                    noise()
        noise()
        at = b
    A.end = np.array(f.w, dtype=float)
    for r, was in kept:
        if not np.array_equal(r, was, equal_nan=True):
            raise Violation("%s: a result handed out earlier was altered by a later call" % c["kind"])
    xp, dp = hist.perturbed(c, x, d)
    P = hist.drive(kinds.make(c, opts), case["ops"], xp, dp)
    wt, H = hist.tolerance(B, P)
    H = min(H, hist.tie_horizon(c, opts, x, d, A, B))
    hist.same(B, A, x, d, wt, H, "%s undisturbed and with buffers overwritten after each call and other instances "
              "learning in between" % c["kind"])
    return {"labels": common.labels(case) + ["filter"], "nontrivial": len(case["ops"]) > 1 or N > 1}


def check_net(case):
    c = case["net"]
    junk = case["junk"]
    args = calls.arrays(c)
    np.random.seed(77)
    want = calls.frozen(calls.execute(c, {k: v.copy() for k, v in args.items()}))
    mine = {k: v.copy() for k, v in args.items()}

    def mk():
        return pa.ann.NetworkMLP(c["layers"], c["n"], outputs=c["out"], activation=c["act"], mu=c["mu"])

    np.random.seed(77)
    nn = mk()
    rng = np.random.get_state()
    other = mk()
    np.random.set_state(rng)

    def disturb(results):
        keep = np.random.get_state()
        for r in results:
            spoil(r, junk)
        if case["second"]:
            other.train(args["x"] * 0.5, args["d"] * 0.5, epochs=1)
        np.random.set_state(keep)

    out, live = [], []

    def note(results):
        out.extend(calls.frozen(results))
        disturb(results)

    fn = c["fn"]
    keepers = []
    if fn == "mlp_online":
        for k in range(c["N"]):
            v = mine["x"][k].copy()
            y = nn.predict(v)
            spoil(v, junk)
            note([y])
            dv = mine["d"][k].copy() if c["out"] > 1 else float(mine["d"][k])
            e = nn.update(dv)
            spoil(dv, junk)
            note([e])
    else:
        bx, bd = mine["x"], mine["d"]
        if fn == "mlp_run":
            r = [nn.run(bx)]
        elif fn == "mlp_test":
            r = [nn.test(bx, bd)]
        else:
            r = list(nn.train(bx, bd, epochs=c["epochs"], shuffle=c["shuffle"]))
        for k in ("x", "d"):
            if not np.array_equal(mine[k], args[k]):
                raise Violation("%s of a network changed its argument %s" % (fn, k))
        spoil(bx, junk)
        spoil(bd, junk)
        keepers = [(z, np.array(z, copy=True)) for z in r]
        out.extend(calls.frozen(r))
        disturb([])
    last = nn.run(mine["x2"])
    out.append(np.array(last))
    for z, was in keepers:
        if not np.array_equal(z, was, equal_nan=True):
            raise Violation("a result of %s was altered by a later call" % fn)
    for i, (a, b) in enumerate(zip(want, out)):
        if np.shape(a) != np.shape(b) or not close(a, b):
            raise Violation("network (%s): result %d changes when buffers and results are overwritten after each call%s"
                            % (fn, i, " and another network learns" if case["second"] else ""))
    return {"labels": ["network", fn]}


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return np.array_equal(a, b, equal_nan=True) or bool(
        np.all(np.abs(a - b) <= 1e-9 * (np.max(np.abs(a), initial=0) + 1e-300)))


def check_call(case):
    c = case["call"]
    args = calls.arrays(c)
    mine = {k: v.copy() for k, v in args.items()}
    np.random.seed(5)
    first = calls.execute(c, mine)
    was = calls.frozen(first)
    for k in args:
        if not np.array_equal(mine[k], args[k]) or mine[k].dtype != args[k].dtype:
            raise Violation("%s changed its argument %s" % (c["fn"], k))
    # results are not views of the arguments
    for v in mine.values():
        spoil(v, case["junk"])
    for i, (r, b) in enumerate(zip(first, was)):
        if not np.array_equal(r, b, equal_nan=True):
            raise Violation("result %d of %s changes when the caller overwrites his arguments" % (i, c["fn"]))
    for o in case["between"]:
        calls.execute(o, calls.arrays(o))
    np.random.seed(5)
    calls.execute(c, {k: v.copy() for k, v in args.items()})
    for i, (r, b) in enumerate(zip(first, was)):
        if not np.array_equal(r, b, equal_nan=True):
            raise Violation("result %d of %s was altered by a later call" % (i, c["fn"]))
    for r in first:
        spoil(r, case["junk"])
    np.random.seed(5)
    again = calls.execute(c, {k: v.copy() for k, v in args.items()})
    for i, (r, b) in enumerate(zip(again, was)):
        if np.shape(r) != np.shape(b) or not close(b, r):
            raise Violation("result %d of %s differs after the caller overwrote his arguments and results"
                            % (i, c["fn"]))
    return {"labels": ["call", "fn:" + c["fn"]]}
