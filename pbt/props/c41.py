"""C41: weights and options of a filter are what its attributes say, also when they are changed later."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds, refs
from ..lib import Violation

ID = "C41"
# filters whose next step depends on their weights, options and the sample alone
FREE = ["GMCC", "LMF", "LMS", "Llncosh", "NLMF", "NLMS", "NSSLMS", "SSLMS"]
# others, and the options of theirs that are not the start of some state
LIVE = {"AP": ["mu"], "RLS": ["mu"], "GNGD": ["mu", "ro"], "VSLMS_Ang": ["ro", "a"], "VSLMS_Benveniste": ["ro"],
        "VSLMS_Mathews": ["ro"]}
FROZEN = ["AP", "GNGD", "OCNLMS"] + FREE       # mu = 0 means no learning
BUDGET = {"quick": 1600, "thorough": 9000}
RULE = ("case = a history between whose calls the weights (by assignment, in place, or from init_weights) or options of the "
        "filter are changed through its attributes. (a) filters without other memory go on exactly like fresh ones made "
        "with these weights and options; (b) for any filter the next weight history starts with the weights that were set "
        "and mu = 0 stops those with a fixed step size; attributes always show the options in use; (c) filters with other memory "
        "go on like a simulation of their recursion in which the weights or the option change at that sample. Non-trivial: something "
        "was changed between calls and the weights move after it")


@st.composite
def cases_(draw, tier):
    what = draw(st.sampled_from(["free"] * 4 + ["any", "any"] + ["memory"] * 3))
    case = draw(common.hist_case({"free": FREE, "any": kinds.KINDS, "memory": sorted(LIVE)}[what], hi=400, most=5, lo=2))
    N = case["N"]
    if len(case["ops"]) == 1:
        a = draw(st.integers(1, N - 1))
        case["ops"] = [[draw(st.sampled_from(common.MODES)), v] for v in (a, N - a)]
    c = case["cfg"]
    case["what"] = what
    ch = []
    for _ in case["ops"][1:]:
        how = draw(st.sampled_from(["assign", "inplace", "options", "both", "zeros", "one", None]))
        s = {"how": how, "seed": draw(gen.SEEDS), "s": draw(st.sampled_from([1.0, 0.1, 10.0]))}
        if how in ("options", "both"):
            s["opts"] = {k: draw(kinds.option(c["kind"], k)) for k in sorted(kinds.DEFAULTS[c["kind"]])
                         if draw(st.booleans())}
            s["f"] = draw(st.sampled_from([1.0, 0.5, 0.1]))
        ch.append(s)
    case["changes"] = ch
    return case


def cases(tier):
    return cases_(tier)


def new_weights(s, w):
    n = len(w)
    rs = np.random.RandomState(s["seed"])
    if s["how"] == "zeros":
        return np.zeros(n)
    if s["how"] == "one":
        w = np.array(w)
        w[s["seed"] % n] = s["s"]
        return w
    return rs.normal(0, s["s"], n)


def change(f, s, w):
    """Sets the weights w through the attribute."""
    if s["how"] == "inplace":
        f.w[:] = w
    elif s["how"] == "one":
        i = s["seed"] % len(w)
        f.w[i] = w[i]
    elif s["how"] == "zeros" and s["seed"] % 2:
        f.w = f.init_weights("zeros")
    elif s["seed"] % 3 == 0:
        f.w = f.init_weights(w.tolist(), len(w))
    else:
        f.w = w.copy()


def check(case):
    return {"free": check_free, "any": check_any, "memory": check_memory}[case["what"]](case)


def simulate(kind, n, opts, w, switches, x, d):
    """The recursion in double precision; switches: sample -> (weights or None, options)."""
    o = dict(kinds.DEFAULTS[kind], **opts)
    R = hist.Rec(len(d), n)
    w = np.array(w, dtype=float)
    ref = refs.Ref(kind, n, opts, float) if kind not in ("AP", "RLS") else None
    P = np.eye(n) / o["eps"] if kind == "RLS" else None
    A = np.eye(n) * o["eps"] if kind == "RLS" else None
    R.sharp = len(d) + 1                # rows up to here are not spoilt by rounding of the covariance
    for k in range(len(d)):
        sw, so = switches.get(k, (None, {}))
        if sw is not None:
            w = np.array(sw, dtype=float)
        o.update(so)
        v = x[k]
        R.w[k] = w
        R.y[k] = w @ v
        R.e[k] = e = d[k] - R.y[k]
        with np.errstate(all="ignore"):
            if ref:
                for name, value in so.items():
                    setattr(ref, name, value)
                w = w + ref.inc(e, v)
            elif kind == "RLS":
                g = P @ v
                A = o["mu"] * A + np.outer(v, v)
                pn = np.max(np.abs(P))
                loss = (pn + n * (pn * np.max(np.abs(v))) ** 2 / (o["mu"] + v @ g)) / o["mu"] * n * np.max(np.abs(A))
                if not loss < 1e8 or not np.linalg.cond(A) < 1e8:
                    R.sharp = min(R.sharp, k + 1)
                P = (P - np.outer(g, g) / (o["mu"] + v @ g)) / o["mu"]
                w = w + P @ v * e
            else:
                m = int(o["order"])
                X, D = np.zeros((m, n)), np.zeros(m)
                X[:min(m, k + 1)] = x[max(0, k - m + 1):k + 1][::-1]
                D[:min(m, k + 1)] = d[max(0, k - m + 1):k + 1][::-1]
                if not (np.all(np.isfinite(X)) and np.all(np.isfinite(w))):
                    break
                w = w + o["mu"] * X.T @ np.linalg.solve(X @ X.T + o["ifc"] * np.eye(m), D - X @ w)
    else:
        R.end = w
        return R
    R.end = np.full(n, np.nan)
    return R


def check_memory(case):
    c, x, d, opts = hist.prepare(case)
    kind, n = c["kind"], c["n"]
    f = kinds.make(c, opts)
    w0 = np.array(f.w, dtype=float)
    R = hist.Rec(len(d), n)
    at, switches, at_first = 0, {}, None
    for (mode, ln), s in zip(case["ops"], [None] + case["changes"]):
        if s and s["how"]:
            w, so = None, {}
            if s["how"] in ("options", "both"):
                drawn = dict(s["opts"])
                name = LIVE[kind][s["seed"] % len(LIVE[kind])]
                if name not in drawn:
                    drawn[name] = float(opts.get(name, kinds.DEFAULTS[kind][name])) * s["f"]
                so = {k: v for k, v in drawn.items() if k in LIVE[kind]}
                if "rel" in c and "mu" in so and kind not in ("RLS", "AP"):
                    so["mu"] = float(opts["mu"]) * s["f"]
                for k, v in so.items():
                    setattr(f, k, v)
            if s["how"] != "options":
                w = new_weights(s, f.w)
                change(f, s, w)
            switches[at] = (w, so)
            at_first = at if at_first is None else at_first
        hist.drive(f, [[mode, ln]], x, d, R, at)
        at += ln
    R.end = np.array(f.w, dtype=float)
    A = simulate(kind, n, opts, w0, switches, x, d)
    # (AP: with the data, the inverse of its small matrix moves as well)
    worst = dict(c, opts=dict(opts))
    if kind == "RLS":
        worst["opts"]["mu"] = min([opts.get("mu", 0.1)] + [v[1]["mu"] for v in switches.values() if "mu" in v[1]])
    P = simulate(kind, n, opts, w0, switches, *hist.perturbed(worst, x, d, size=1e-12 if kind == "AP" else 1e-13))
    base = 1e-6 if kind == "RLS" else 1e-8
    wt, H = hist.tolerance(A, P, base=base)
    H = min(H, A.sharp)
    hist.same(A, R, x, d, wt, H, "%s: a simulation, and the filter, whose weights or options were changed through its "
              "attributes (%s, options %s)" % (kind, [s["how"] for s in case["changes"]],
                                               {k: v[1] for k, v in switches.items()}), base=base)
    return {"labels": common.labels(case) + ["memory:%s" % s["how"] for s in case["changes"]],
            "nontrivial": at_first is not None and H > at_first}


def scaled(c, s, o, base):
    """The changed options; step sizes relative to the data where the case asks for it."""
    new = dict(o, **s.get("opts", {}))
    if "rel" in c and "mu" in base:
        new["mu"] = base["mu"] * s.get("f", 1.0)
    return new


def check_free(case):
    c, x, d, opts = hist.prepare(case)
    kind, n, N = c["kind"], c["n"], len(d)
    o = dict(kinds.DEFAULTS[kind], **opts)
    base = dict(o)

    def go(xx, dd, fresh):
        f = kinds.make(c, opts)
        R = hist.Rec(N, n)
        at, cur = 0, dict(o)
        for (mode, ln), s in zip(case["ops"], [None] + case["changes"]):
            if s and s["how"]:
                w = np.array(f.w)
                if s["how"] != "options":
                    w = new_weights(s, w)
                if s["how"] in ("options", "both"):
                    cur = scaled(c, s, cur, base)
                if fresh:
                    f = kinds.cls(kind)(n=n, w=w, **cur)
                else:
                    if s["how"] != "options":
                        change(f, s, w)
                    for k, v in cur.items():
                        setattr(f, k, v)
            hist.drive(f, [[mode, ln]], xx, dd, R, at)
            at += ln
        R.end = np.array(f.w, dtype=float)
        return R, f, cur

    A, _, cur = go(x, d, True)
    B, f, _ = go(x, d, False)
    P, _, _ = go(*hist.perturbed(c, x, d), True)
    for k, v in cur.items():
        if getattr(f, k) != v:
            raise Violation("%s: the attribute %s is %r after it was set to %r" % (kind, k, getattr(f, k), v))
    wt, H = hist.tolerance(A, P)
    H = min(H, hist.tie_horizon(c, dict(opts, **cur), x, d, A, B))
    if kind == "GMCC":
        for s in case["changes"]:
            if s.get("opts", {}).get("alpha", 2) < 2:
                H = min(H, hist.tie_horizon(c, dict(opts, alpha=1.5), x, d, A, B))
    hist.same(A, B, x, d, wt, H, "%s: a fresh filter, and one whose weights or options were changed through its "
              "attributes (%s)" % (kind, [s["how"] for s in case["changes"]]))
    cut = case["ops"][0][1]
    return {"labels": common.labels(case) + ["change:%s" % s["how"] for s in case["changes"]],
            "nontrivial": H > cut and any(s["how"] for s in case["changes"])
            and bool(np.any(np.diff(A.w[cut:H], axis=0) != 0) or N == 2)}


def check_any(case):
    c, x, d, opts = hist.prepare(case)
    kind, n = c["kind"], c["n"]
    f = kinds.make(c, opts)
    for k, v in opts.items():
        if hasattr(f, k) and k != "eps" and not getattr(f, k) == v:
            raise Violation("%s: the attribute %s is %r after construction with %r" % (kind, k, getattr(f, k), v))
    if f.n != n:
        raise Violation("%s: the attribute n is %r after construction with %r" % (kind, f.n, n))
    at = 0
    did = 0
    R = hist.Rec(len(d), n)
    for (mode, ln), s in zip(case["ops"], [None] + case["changes"]):
        frozen = False
        if s and s["how"]:
            if s["how"] == "options":
                if kind not in FROZEN:
                    s = None
                else:
                    keep, f.mu = f.mu, 0.0
                    frozen = True
                    w = np.array(f.w)
            else:
                w = new_weights(s, f.w)
                change(f, s, w)
            if s and not np.array_equal(f.w, w, equal_nan=True):
                raise Violation("%s: the weights are %s after they were set to %s"
                                % (kind, hist.short(f.w), hist.short(w)))
        hist.drive(f, [[mode, ln]], x, d, R, at)
        at += ln
        if not (s and s["how"]) or not np.all(np.isfinite(w)):
            continue
        did += 1
        rows = R.w[at - ln:at]
        if not np.array_equal(rows[0], w):
            raise Violation("%s (%s): the weights before the first sample of a call are %s after they were set to %s"
                            % (kind, mode, hist.short(rows[0]), hist.short(w)))
        if frozen:
            if np.any(rows != w) or np.any(f.w != w):
                i = int(np.flatnonzero(np.any(np.vstack([rows, f.w]) != w, axis=1))[0])
                if np.all(np.isfinite(R.w[:at])) and np.all(np.isfinite(x)) and np.all(np.abs(R.w[:at]) < 1e60):
                    raise Violation("%s (%s): the weights change at sample %d though mu was set to 0" % (kind, mode, i))
            f.mu = keep
    return {"labels": common.labels(case) + ["any"], "nontrivial": did > 0}
