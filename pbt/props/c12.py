"""C12: filters are created as configured and impossible configurations are refused."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from .. import common, gen, hist, kinds, refs
from ..lib import Violation, pa

ID = "C12"
BUDGET = {"quick": 900, "thorough": 9000}
RULE = ("case = (a) a kind with a subset of its documented options, whose behaviour on drawn data has to equal that of "
        "the same filter with all options written out (documented defaults); (b) a weight specification, whose starting "
        "weights are compared (drawn ones: distribution test); (c) an invalid weight specification, name or missing "
        "size, which has to raise ValueError. Non-trivial: every distinct case of (b), (c); (a) when options are "
        "omitted and weights move")
GRADIENT = ["LMS", "NLMS", "LMF", "NLMF", "SSLMS", "NSSLMS", "GMCC", "Llncosh"]
BADW = ["Random", "ZEROS", "random ", "zero", "ones", "", "rand", "None", "normal"]
BADNAMES = ["LMSS", "", "NL MS", "VSLMS", "O", "OC", "GM", "GMC", "llncos", "VSLMS_A", "vslms_b", "VSLMS_", "Benveniste", "cosh", "N",
            "lms2", "LMS ", " lms", "\tNLMS", "nlms\n", "vslms-ang", "Filter", "FilterLMS", "RLS1", "ANG", "foo", "APA", "ocnlms "]


@st.composite
def cases_(draw, tier):
    what = draw(st.sampled_from(["opts", "opts", "opts", "given", "random", "bad"]))
    kind = draw(st.sampled_from(kinds.KINDS))
    n = gen.filter_size(draw)
    case = {"what": what, "kind": kind, "n": n}
    if what == "opts":
        names = list(kinds.DEFAULTS[kind])
        case["opts"] = {k: draw(kinds.option(kind, k)) for k in names if draw(st.integers(0, 2)) == 0}
        zero = {"NLMS": "eps", "NLMF": "eps", "NSSLMS": "eps", "Llncosh": "lambd", "GMCC": "lambd"}.get(kind)
        if zero and draw(st.integers(0, 4)) == 0:
            case["opts"][zero] = draw(st.sampled_from([0, 0.0]))
        case["w"] = draw(kinds.weights(n))
        case["N"] = draw(st.sampled_from([8, 20, 40, 130 if kind == "OCNLMS" else 30]))
        case["data"] = draw(gen.data_spec(xpats=["gauss", "hist", "sparse", "ints", "sine", "mixedrows"],
                                          tpats=["linear", "noise", "spikes", "drift"]))
        case["omitw"] = draw(st.integers(0, 4)) == 0
        case["call"] = draw(st.sampled_from(["kw", "pos"]))
    elif what == "given":
        case["w"] = draw(kinds.weights(n))
        case["as"] = draw(st.sampled_from(["array", "list", "tuple", "int", "f32", "view", "i8", "series"]))
        case["npn"] = draw(st.booleans())
    elif what == "random":
        case["seed"] = draw(gen.SEEDS)
        case["n"] = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 16, 33, 64, 100, 127, 128, 129, 256, 1000]
                                         + [s for s in gen._FILT_SIZES if s < 1500]))
    else:
        case["bad"] = draw(st.sampled_from(["word", "short", "long", "empty", "text", "object", "name", "helper-name",
                                            "get-name", "no-size", "ragged"]))
        case["word"] = draw(st.one_of(st.sampled_from(BADW), st.text(max_size=6).filter(
            lambda s: s not in ("random", "zeros"))))
        case["name"] = draw(st.one_of(st.sampled_from(BADNAMES), st.text(max_size=8).filter(
            lambda s: s.upper() not in {k.upper() for k in kinds.KINDS})))
        case["by"] = draw(st.integers(1, 5))
        case["with"] = draw(st.sampled_from(["none", "mu", "zeros", "random", "array", "list"]))
    return case


def cases(tier):
    return cases_(tier)


def check(case):
    return {"opts": check_opts, "given": check_given, "random": check_random, "bad": check_bad}[case["what"]](case)


def check_opts(case):
    kind, n = case["kind"], case["n"]
    cfg = {"kind": kind, "n": n, "opts": dict(case["opts"]), "w": case["w"]}
    full = dict(kinds.DEFAULTS[kind], **case["opts"])
    N = case["N"]
    x, d = gen.expand(case["data"], N, n)
    x = kinds.guard(cfg, x)
    cls = kinds.cls(kind)
    if case["omitw"]:
        np.random.seed(99)
        f = cls(n=n, **case["opts"])
        np.random.seed(99)
        g = cls(n=n, w="random", **full)
    else:
        w = kinds.w_value(case["w"], n)
        arg = case["w"] if isinstance(case["w"], str) else w
        np.random.seed(99)
        f = cls(n, w=arg, **case["opts"]) if case["call"] == "pos" else cls(n=n, w=arg, **case["opts"])
        np.random.seed(99)
        g = cls(n=n, w=arg, **full)
    A = hist.drive(f, [["run", N]], x, d)
    B = hist.drive(g, [["run", N]], x, d)
    if not np.array_equal(A.w[0], B.w[0]):
        raise Violation("%s: the starting weights depend on whether defaults are written out" % kind)
    m = hist.finite_until(A.w, A.e)
    m2 = hist.finite_until(B.w, B.e)
    m = min(max(m, m2), N)
    dif = np.abs(A.w[:m] - B.w[:m])
    sc = np.maximum.accumulate(np.max(np.abs(B.w[:m]), axis=1)) + 1e-300
    bad = np.flatnonzero(~np.all(dif <= 1e-12 * sc[:, None], axis=1))
    if len(bad):
        raise Violation("%s with options %s is not the filter with the documented defaults %s: weights before sample %d "
                        "are %s and %s" % (kind, case["opts"], full, bad[0], hist.short(A.w[bad[0]]),
                                           hist.short(B.w[bad[0]])))
    if kind in GRADIENT:                  # the configured values are the ones in use
        ref = refs.Ref(kind, n, full)
        for k in range(m - 1):
            inc = ref.inc(A.e[k], x[k])
            got = A.w[k + 1] - A.w[k]
            tol = 1e-9 * np.abs(inc) + 4.5e-16 * np.maximum(np.abs(A.w[k]), np.abs(A.w[k + 1])) + 1e-300
            if np.all(np.isfinite(inc)) and not np.all(np.abs(got - inc) <= tol):
                raise Violation("%s with options %s: sample %d moves the weights by %s, these options by %s"
                                % (kind, full, k, hist.short(got), hist.short(inc)))
    return {"labels": ["options", kinds.label(cfg)], "nontrivial": len(case["opts"]) < len(full)
            and bool(np.any(A.w != A.w[0]))}


def check_given(case):
    kind, n = case["kind"], case["n"]
    cls = kinds.cls(kind)
    w = kinds.w_value(case["w"], n)
    size = np.int64(n) if case["npn"] else n
    if w is None:
        np.random.seed(5)
        f = cls(n=size, w="random")
        np.random.seed(5)
        g = cls(n=size, w="random")
        if np.shape(f.w) != (n,) or not np.array_equal(f.w, g.w):
            raise Violation("%s: seeding does not fix the drawn weights" % kind)
        return {"labels": ["weights:drawn"]}
    how = case["as"]
    if case["w"] == "zeros" and how != "list":
        arg, want = "zeros", np.zeros(n)
    else:
        want = w
        if how == "int":
            want = np.clip(np.round(w), -1e6, 1e6)
            arg = want.astype(int)
        elif how == "i8":
            want = np.clip(np.round(w), -100, 100)
            arg = want.astype(np.int8)
        elif how == "f32":
            want = w.astype(np.float32).astype(float)
            arg = w.astype(np.float32)
        elif how == "view":
            arg = np.repeat(w, 2)[::2]
        elif how == "array":
            arg = w.copy()
        else:
            arg = w.tolist() if how != "tuple" else tuple(w.tolist())
    f = cls(n=size, w=arg)
    if np.shape(f.w) != (n,) or not np.array_equal(np.array(f.w, dtype=float), want):
        raise Violation("%s created with weights %s (%s) starts with %s" % (kind, hist.short(want), how,
                                                                           hist.short(np.array(f.w, dtype=float))))
    again = f.init_weights(arg)             # (for the size of the filter, which stays as it is)
    if np.shape(again) != (n,) or not np.array_equal(np.array(again, dtype=float), want) or not np.array_equal(f.w, want):
        raise Violation("%s of size %d: init_weights of the weights %s (%s) gives %s"
                        % (kind, n, hist.short(want), how, hist.short(np.array(again, dtype=float))))
    x = np.ones((1, n)) * 0.5
    y, e, W = f.run(np.zeros(1), x)
    if not np.array_equal(W[0], want):
        raise Violation("%s created with weights %s reports %s as its first weights" % (kind, want, W[0]))
    return {"labels": ["weights:" + how]}


def check_random(case):
    kind, n = case["kind"], case["n"]
    cls = kinds.cls(kind)
    reps = max(1, 2400 // n)
    if kind in ("RLS",) and n > 200:
        n = 200
        reps = 12
    np.random.seed(case["seed"])
    ws = []
    for _ in range(reps):
        w = np.array(cls(n=n, w="random").w, dtype=float)
        if w.shape != (n,):
            raise Violation("%s: drawn weights have shape %s for size %d" % (kind, w.shape, n))
        ws.append(w)
    v = np.array(ws)
    a = v.ravel()
    M = len(a)
    if len(np.unique(a)) < M:
        raise Violation("%s: drawn weights repeat" % kind)
    if not (abs(a.mean()) < 7 * 0.5 / np.sqrt(M) and abs(a.var() / 0.25 - 1) < 7 * np.sqrt(2.0 / M)):
        raise Violation("%s: %d drawn weights have mean %.4g and deviation %.4g instead of 0 and 0.5"
                        % (kind, M, a.mean(), a.std()))
    if stats.kstest(a / 0.5, "norm").pvalue < 1e-12:
        raise Violation("%s: %d drawn weights are not normally distributed" % (kind, M))
    for q in (a[1:] * a[:-1], v[1:, 0] * v[:-1, 0]):
        if len(q) > 30 and abs(q.mean() / 0.25) > 8 / np.sqrt(len(q)):
            raise Violation("%s: drawn weights are correlated" % kind)
    # every position of the weight vector, over the filters
    if reps >= 30:
        sums = [v.sum(axis=1), v[:, ::2].sum(axis=1) - v[:, 1::2].sum(axis=1)]
        if n > 1 and any(min(stats.chi2.cdf(t, reps), stats.chi2.sf(t, reps)) < 1e-13
                         for t in (np.sum(q ** 2) / (n * 0.25) for q in sums)):
            raise Violation("%s: the drawn weights of one filter are not independent of each other" % kind)
        if not np.all(np.abs(v.mean(axis=0)) < 8 * 0.5 / np.sqrt(reps)) or \
                not np.all(np.abs(v.var(axis=0) / 0.25 - 1) < 12 * np.sqrt(2.0 / reps)):
            raise Violation("%s: some position of the drawn weights is not normal with deviation 0.5" % kind)
    return {"labels": ["weights:distribution"]}


def check_bad(case):
    kind, n, bad = case["kind"], case["n"], case["bad"]
    cls = kinds.cls(kind)
    good = [0.5] * n
    F = pa.filters
    if bad == "word":
        what, call = "weight keyword %r" % case["word"], lambda: cls(n=n, w=case["word"])
    elif bad == "short":
        m = max(0, n - case["by"])
        what, call = "%d weights for size %d" % (m, n), lambda: cls(n=n, w=[0.5] * m)
    elif bad == "long":
        m = n + case["by"]
        more = {"none": 1.0, "mu": 0.5, "zeros": 0.0, "random": np.nan, "array": 1.0, "list": -0.0}[case["with"]]
        ww = np.append(np.ones(n), np.full(case["by"], more))
        what, call = "%d weights for size %d" % (m, n), lambda: cls(n=n, w=ww if case["with"] != "list" else ww.tolist())
    elif bad == "empty":
        what, call = "no weights for size %d" % n, lambda: cls(n=n, w=[])
    elif bad == "text":
        what, call = "text weights", lambda: cls(n=n, w=good[:-1] + ["abc"])
    elif bad == "object":
        what, call = "object weights", lambda: cls(n=n, w=good[:-1] + [object()])
    elif bad == "ragged":
        what, call = "ragged weights", lambda: cls(n=n, w=[[1.0, 2.0]] + [0.5] * (n - 1)) if n > 1 else \
            cls(n=n, w=[{}])
    elif bad == "name":
        what, call = "filter name %r" % case["name"], lambda: F.AdaptiveFilter(model=case["name"], n=n)
    elif bad == "helper-name":
        what, call = "filter name %r" % case["name"], lambda: F.filter_data(np.ones(3), np.ones((3, n)),
                                                                           model=case["name"])
    elif bad == "get-name":
        what, call = "filter name %r" % case["name"], lambda: F.get_filter(case["name"])
    else:
        more = {"none": {}, "mu": {"mu": 0.1}, "zeros": {"w": "zeros"}, "random": {"w": "random"},
                "array": {"w": np.array(good)}, "list": {"w": good, "mu": 0.5}}[case["with"]]
        what, call = "missing size (%s)" % more, lambda: F.AdaptiveFilter(model=kind, **more)
    try:
        call()
    except ValueError:
        return {"labels": ["refused:" + bad]}
    except Exception as exc:
        raise Violation("%s: %s is refused with %r instead of a ValueError" % (kind, what, exc))
    raise Violation("%s: %s is accepted" % (kind, what))
