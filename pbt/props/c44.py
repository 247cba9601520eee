"""C44: a call that is interrupted leaves everything usable."""
import os
import sys

import numpy as np
from hypothesis import strategies as st

from .. import calls, common, forked, gen, hist, kinds, lib, net
from ..lib import Violation, pa
from .c38 import snapshot
from .c41 import FREE

ID = "C44"
BUDGET = {"quick": 450, "thorough": 6000}
RULE = ("case = a call of the library (run, pretrained_run, adapt, predict of a filter after some history; run, test, train, "
        "predict, update of a network; any function) that is broken off at a drawn line of the library's code by an exception "
        "that comes from outside, like the one of Ctrl-C, and further calls after it. Oracle: weights are those before some "
        "sample of the unbroken call; further results are those of a fresh object with these weights (filters without "
        "other memory, AP once its memory is refilled, networks); predictions, functions and the state of the process are as "
        "without the interrupted call. Non-trivial: the call was broken off between its first and its last line")
PLACES = 3
HOME = os.path.join(lib.REPO, "padasip") + os.sep


class Stop(BaseException):
    """What comes from outside."""


@st.composite
def cases_(draw, tier):
    what = draw(st.sampled_from(["filter"] * 6 + ["net"] * 3 + ["call"] * 3))
    case = {"what": what, "at": draw(st.integers(0, 1000)), "seed": draw(gen.SEEDS),
            "err": [draw(st.sampled_from(["ignore", "warn"])) for _ in range(4)]}
    if what == "filter":
        case["h"] = draw(common.hist_case(typical=12, hi=30, rare=0, lo=4, stable=True, nhi=5))
        case["h"]["N"] = N = min(case["h"]["N"], 40)
        case["h"]["ops"] = draw(gen.ops(N, common.MODES, 4))
        case["how"] = draw(st.sampled_from(["run", "run", "run", "pretrained", "adapt", "predict"]))
        case["epochs"] = draw(st.integers(1, 3))
    elif what == "net":
        c = draw(net.shape())
        case["net"] = dict(c, layers=[min(v, 6) for v in c["layers"][:4]], n=min(c["n"], 6))
        case["how"] = draw(st.sampled_from(["run", "test", "predict", "train", "train", "shuffle", "update"]))
        case["N"] = draw(st.integers(1, 6))
    else:
        case["call"] = small(draw(calls.call(calls.ALL)))
        case["other"] = small(draw(calls.call([case["call"]["fn"]])))
    return case


def small(c):
    c["N"] = min(c["N"], 40)
    c["layers"] = [min(v, 5) for v in c.get("layers", [])[:3]]
    c["epochs"] = min(2, c.get("epochs", 1))
    if c["fn"] == "input_from_history":
        c["n"] = min(c["n"], c["N"])
    if c["fn"].startswith("LDA"):
        c["N"] = max(c["N"], 2 * c["n"] + 6)
    if c["fn"] == "ESE":
        c["m"] = min(c["m"], 30)
        c["N"] = c["m"] + 3
    return c


def cases(tier):
    return cases_(tier)


def broken_off(go, at=None):
    """Runs go; with at: breaks it off at that line of the library. Returns (the lines passed, whether it was broken off)."""
    seen = []

    def local(frame, event, arg):
        if event == "line":
            seen.append((frame.f_code.co_filename, frame.f_lineno))
            if len(seen) == at:
                sys.settrace(None)
                raise Stop()
        return local

    def start(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(HOME) else None

    old = sys.gettrace()
    sys.settrace(start)
    try:
        go()
        off = False
    except BaseException as e:
        if not isinstance(e, (Stop, Exception)) or at is None:
            raise
        off = True
    finally:
        sys.settrace(old)
    return seen, off


def elsewhere(fn):
    """The value of fn() computed in another process: this one has not made the unbroken call before the broken one."""
    how, v = forked.apart(fn)
    if how == "raised":
        raise Violation("the call without an interruption fails: %s" % v)
    return v


def positions(case, lines):
    """At which lines to break off: one of all that are passed, and three that are the first, last or some other passing of
    some line of the source (so that those that are passed once are not rare)."""
    if not lines:
        return []
    rs = np.random.RandomState((case["seed"] + case["at"]) % 2 ** 31)
    where = {}
    for k, l in enumerate(lines):
        where.setdefault(l, []).append(k + 1)
    where = [where[l] for l in sorted(where)]
    out = [1 + case["at"] * (len(lines) - 1) // 1000]
    for _ in range(PLACES):
        w = where[rs.randint(len(where))]
        out.append(w[rs.choice([0, len(w) - 1, rs.randint(len(w))])])
    return sorted(set(out))


def state():
    return snapshot(draws=False)


def unchanged(before, what, draws):
    after = state()
    for k in before:
        if before[k] != after[k] and not (draws and k == "numpy's random stream"):
            raise Violation("%s leaves %s changed" % (what, k))


def intact(a, keep, what):
    for k in keep:
        if not np.array_equal(a[k], keep[k], equal_nan=a[k].dtype.kind == "f"):
            raise Violation("%s leaves the caller's array %s changed" % (what, k))


def check(case):
    with np.errstate(**dict(zip(("divide", "over", "under", "invalid"), case["err"]))):
        return {"filter": check_filter, "net": check_net, "call": check_call}[case["what"]](case)


def check_filter(case):
    c, x, d, opts = hist.prepare(case["h"])
    N, n, how = len(d), x.shape[1], case["how"]
    ops, half = [], max(2, N // 2)              # the interrupted call comes after these
    for m, ln in case["h"]["ops"]:
        t = min(ln, N - half - sum(l for _, l in ops))
        if t > 0:
            ops.append([m, t])
    at = sum(l for _, l in ops)
    xa, da = x[at:at + half], d[at:at + half]
    xb, db = np.vstack([x[::-1], x]), np.append(d[::-1], d)
    keep = {"x": xa.copy(), "d": da.copy()}
    k0 = half // 2

    def made():
        f = kinds.make(c, opts)
        hist.drive(f, ops, x, d)
        return f

    def go(f, record=None):
        if how == "run":
            r = f.run(da, xa)
            if record is not None:
                record += list(np.array(r[2]))
        elif how == "pretrained":
            f.pretrained_run(da, xa, ntrain=0.5, epochs=case["epochs"])
        elif how == "adapt":
            f.adapt(float(da[k0]), xa[k0])
        else:
            f.predict(xa[k0])
    def unbroken():
        f = made()
        rows = [np.array(f.w)]
        lines, _ = broken_off(lambda: go(f, rows))
        rows.append(np.array(f.w))
        if how == "pretrained":
            g = made()
            for part in [slice(0, int(half * 0.5))] * case["epochs"] + [slice(int(half * 0.5), None)]:
                rows += list(np.array(g.run(da[part], xa[part])[2]))
        return lines, rows
    lines, rows = elsewhere(unbroken)
    inside = False
    for i in positions(case, lines):
        inside |= filter_broken(case, c, opts, made, go, rows, (x, d, xa, da, xb, db, keep), i, len(lines))
    return {"labels": ["filter:" + how, c["kind"]], "nontrivial": inside}


def filter_broken(case, c, opts, made, go, rows, arrays, i, lines):
    """One interruption; whether it was one between the first and the last line."""
    x, d, xa, da, xb, db, keep = arrays
    n, how = x.shape[1], case["how"]
    f = made()
    before = state()
    _, off = broken_off(lambda: go(f), i)
    what = "%s: %s interrupted at line %d of %d that it runs through" % (c["kind"], how, i, lines)
    unchanged(before, what, False)
    intact({"x": xa, "d": da}, keep, what)
    w = np.array(f.w)
    if not any(np.array_equal(w, r, equal_nan=True) for r in rows):
        raise Violation("%s leaves weights that it has at no sample: %s (first row %s, last %s)"
                        % (what, hist.short(w), hist.short(rows[0]), hist.short(rows[-1])))
    out = off and 1 < i < lines
    if how == "predict":
        g = made()
        compare(f.run(db, xb), g.run(db, xb), what + ", then a run")
        return out
    g = kinds.cls(c["kind"])(n, w=w.copy(), **opts)
    if c["kind"] == "AP":
        m = opts.get("order", 5)
        xm, dm = np.resize(x, (m, n)), np.resize(d, m)
        f.run(dm, xm)
        g.run(dm, xm)
        g.w = np.array(f.w)
    if c["kind"] in FREE + ["AP"]:
        compare(f.run(db, xb), g.run(db, xb), what + ", then a run, against a fresh filter with these weights")
        return out
    y, e, W = f.run(db, xb)
    hist.shapes(y, e, W, len(db), n)
    H = hist.finite_until(W, y[:, None])
    if not np.array_equal(W[0], w, equal_nan=True):
        raise Violation("%s: the next run does not start from the weights of the filter" % what)
    if c["kind"] != "OCNLMS":
        for k in range(H):
            s = np.dot(np.abs(W[k]), np.abs(xb[k]))
            if not abs(y[k] - np.dot(W[k], xb[k])) <= 1e-9 * s + 1e-290:
                raise Violation("%s: output %d of the next run is not the product of weights and input" % (what, k))
    for k in range(H):
        if not abs(e[k] - (db[k] - y[k])) <= 1e-9 * (abs(db[k]) + abs(y[k])):
            raise Violation("%s: error %d of the next run is not target minus output" % (what, k))
    return out


def compare(A, B, what):
    for a, b, name in zip(A, B, ("outputs", "errors", "weights")):
        if np.shape(a) != np.shape(b):
            raise Violation("%s: %s of shape %s and %s" % (what, name, np.shape(a), np.shape(b)))
        H = hist.finite_until(a, b)
        a, b = np.asarray(a)[:H], np.asarray(b)[:H]
        if not np.array_equal(a, b) and not np.allclose(a, b, rtol=1e-9, atol=1e-12 * np.max(np.abs(a), initial=0)):
            k = int(np.argwhere(~np.isclose(a, b, rtol=1e-9))[0][0])
            raise Violation("%s: %s of sample %d are %s and should be %s" % (what, name, k, np.asarray(a[k]).tolist(),
                                                                             np.asarray(b[k]).tolist()))


def check_net(case):
    c, how, N = case["net"], case["how"], case["N"]
    rs = np.random.RandomState(case["seed"])
    x, d = rs.normal(0, 1, (N, c["n"])), rs.normal(0, 1, (N, c["out"]))
    x2, d2 = rs.normal(0, 1, (4, c["n"])), rs.normal(0, 1, (4, c["out"]))
    if c["out"] == 1:
        d, d2 = d[:, 0], d2[:, 0]
    c = dict(c, mu="auto" if c["mu"] in ("omitted", 10.0, 2) else c["mu"])
    keep = {"x": x.copy(), "d": d.copy()}

    def made():
        nn = net.make(c)
        nn.train(x2, d2, epochs=1)
        nn.predict(x2[0])
        return nn

    def go(nn):
        np.random.seed(5)
        if how == "run":
            nn.run(x)
        elif how == "test":
            nn.test(x, d)
        elif how == "predict":
            nn.predict(x[0])
        elif how == "update":
            nn.update(d[0])
        else:
            nn.train(x, d, epochs=2, shuffle=how == "shuffle")

    def further(nn):
        r = [nn.run(x2), nn.test(x2, d2)]
        r += list(nn.train(x2, d2, epochs=2))
        return r + [nn.run(x)]
    def unbroken():
        nn = made()
        return broken_off(lambda: go(nn))[0]
    lines = elsewhere(unbroken)
    inside = False
    for i in positions(case, lines):
        inside |= net_broken(how, c, made, go, further, (x, d, keep), i, len(lines))
    return {"labels": ["net:" + how], "nontrivial": inside}


def net_broken(how, c, made, go, further, arrays, i, lines):
    x, d, keep = arrays
    nn = made()
    W0 = net.weights(nn)
    np.random.seed(5)
    before = state()
    _, off = broken_off(lambda: go(nn), i)
    what = "network: %s interrupted at line %d of %d that it runs through" % (how, i, lines)
    unchanged(before, what, how == "shuffle")
    intact({"x": x, "d": d}, keep, what)
    W = net.weights(nn)
    if how in ("run", "test", "predict"):
        for a, b in zip(W, W0):
            if not np.array_equal(a, b, equal_nan=True):
                raise Violation("%s leaves other weights" % what)
    fresh = net.make(c)
    net.set_weights(fresh, W)
    for a, b in zip(further(nn), further(fresh)):
        if np.shape(a) != np.shape(b) or not np.allclose(a, b, rtol=1e-9, atol=1e-12 * np.max(np.abs(b), initial=0), equal_nan=True):
            raise Violation("%s: further results are not those of a fresh network with its weights" % what)
    return off and 1 < i < lines


def check_call(case):
    c, other = case["call"], case["other"]
    a, b = calls.arrays(c), calls.arrays(other)
    keep = {k: v.copy() for k, v in a.items()}

    def seeded(c, a):
        np.random.seed(case["seed"] % 2 ** 32)
        try:
            return calls.frozen(calls.execute(c, a))
        except Exception:           # (the fit of SciPy gives these numbers up, singular scatter)
            return None

    def go():
        return seeded(c, a)
    want, lines, want2 = elsewhere(lambda: (go(), broken_off(go)[0], seeded(other, b)))
    if want is None:
        return {"labels": [c["fn"] + " (refused)"], "nontrivial": False}
    inside = False
    for i in positions(case, lines):
        np.random.seed(case["seed"] % 2 ** 32)
        before = state()
        _, off = broken_off(lambda: calls.execute(c, a), i)
        what = "%s interrupted at line %d of %d that it runs through" % (c["fn"], i, len(lines))
        unchanged(before, what, calls.draws_randomness(c))
        intact(a, keep, what)
        first, then = (want2, want) if i % 2 else (want, want2)
        for w in (first, then):
            got = seeded(other, b) if w is want2 else go()
            if (got is None) != (w is None):
                raise Violation("%s: the next call is %s" % (what, "refused" if got is None else "not refused"))
            for p, q in zip(w or (), got or ()):
                if p.shape != q.shape or not np.array_equal(p, q, equal_nan=p.dtype.kind == "f"):
                    raise Violation("%s: the next call (%s) gives another result" % (what, "another one" if w is want2 else "the same"))
        inside |= off and 1 < i < len(lines)
    return {"labels": ["call:" + c["fn"]], "nontrivial": inside}
