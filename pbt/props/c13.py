"""C13: all ways to obtain and run a filter are equivalent."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds
from ..lib import Violation, pa

ID = "C13"
BUDGET = {"quick": 1580, "thorough": 9000}
RULE = ("case = (kind, spelling of its name, options, data): the class, the filter looked up by name, the one made by "
        "the factory and the one-call helper (several times, also with other calls in between) have to give the same "
        "class and bit for bit the same results. Non-trivial: weights move")


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(hi=600, modes=("run",), most=1))
    kind = case["cfg"]["kind"]
    case["name"] = draw(st.sampled_from([kind, kind.lower(), kind.upper(), kind.capitalize(), kind.swapcase(),
                                         kind.title()]))
    case["mask"] = draw(st.integers(0, 2 ** len(kind) - 1)) if draw(st.booleans()) else None
    case["default"] = draw(st.integers(0, 9)) == 0
    case["wrong_n"] = draw(st.integers(0, 5)) == 0
    case["wbox"] = draw(st.sampled_from(["array", "array", "list", "tuple"]))
    case["types"] = draw(st.integers(0, 3))
    case["cut"] = draw(st.integers(0, 12))
    case["other"] = draw(st.sampled_from(kinds.KINDS))
    return case


def cases(tier):
    return cases_(tier)


def refused(kind, cut):
    """Names that are nearly a filter's name are refused by every way of obtaining one."""
    F = pa.filters
    for name in (kind[:cut], kind[cut:], kind + kind[:1], kind + " ", "Filter" + kind, kind[:cut] + "-" + kind[cut:],
                 kind.replace("_", "-"), kind.replace("_", " "), kind.replace("_", ""), kind.replace("_", "__"),
                 "_" + kind, "pa.filters." + kind, "Adaptive" + kind):
        if name.upper() in {k.upper() for k in kinds.KINDS}:
            continue
        for name in (name, name.lower()):
            for how, call in (("get_filter", lambda: F.get_filter(name)),
                              ("AdaptiveFilter", lambda: F.AdaptiveFilter(model=name, n=2)),
                              ("filter_data", lambda: F.filter_data(np.ones(3), np.ones((3, 2)), model=name))):
                try:
                    call()
                except ValueError:
                    continue
                except Exception as exc:
                    raise Violation("%s refuses the name %r with %r instead of a ValueError" % (how, name, exc))
                raise Violation("%s accepts the name %r" % (how, name))


def typed(opts, how):
    """Options as other types of numbers of the same value."""
    def one(v):
        if how == 1 and float(v) == int(v) and abs(v) < 1e6:
            return int(v)
        if how == 2:
            return np.int64(v) if isinstance(v, int) else np.float64(v)
        return v
    return {k: one(v) for k, v in opts.items()}


def check(case):
    refused(case["cfg"]["kind"], min(case["cut"], len(case["cfg"]["kind"]) - 1))
    if case["default"]:
        case = dict(case, cfg=dict(case["cfg"], kind="LMS", opts={k: v for k, v in case["cfg"]["opts"].items()
                                                                   if k == "mu"}))
        case["cfg"].pop("rel", None)
    c, x, d, opts = hist.prepare(case)
    opts = typed(opts, case.get("types", 0))
    kind, n = c["kind"], c["n"]
    F = pa.filters
    name = case["name"]
    if case["mask"] is not None:
        name = "".join(ch.upper() if case["mask"] >> i & 1 else ch.lower() for i, ch in enumerate(kind))
    model = {} if case["default"] else {"model": name}
    w = c["w"] if isinstance(c["w"], str) else kinds.w_value(c["w"], n)
    if not isinstance(w, str) and case.get("wbox", "array") != "array":
        w = (list if case["wbox"] == "list" else tuple)(w.tolist())
    cls = kinds.cls(kind)

    def warm():
        np.random.seed(4321)

    def run(f):
        r = f.run(d.copy(), x.copy())
        return tuple(np.array(a) for a in r) + (np.array(f.w),)

    warm()
    base = run(cls(n=n, w=w, **opts))
    ways = {}
    warm()
    if not case["default"]:
        got = F.get_filter(name)
        if got is not cls:
            raise Violation("get_filter(%r) is %r instead of %r" % (name, got, cls))
        ways["get_filter"] = run(got(n=n, w=w, **opts))
    warm()
    f = F.AdaptiveFilter(n=n, w=w, **model, **opts)
    if type(f) is not cls:
        raise Violation("AdaptiveFilter(%r) gives a %r" % (name, type(f)))
    ways["AdaptiveFilter"] = run(f)
    extra = {"n": n + 3} if case["wrong_n"] else {}
    for i in range(3):
        warm()
        ways["filter_data, call %d" % (i + 1)] = F.filter_data(d.copy(), x.copy(), **model, w=w, **opts, **extra)
        if i == 0:
            F.filter_data(np.ones(4), np.ones((4, n)), model=case["other"])
            F.filter_data(d * 2, x, **model, w=w, **opts)
    for how, got in ways.items():
        for what, a, b in zip(("outputs", "errors", "weights", "final weights"), base, got):
            if np.shape(a) != np.shape(b) or not np.array_equal(a, b, equal_nan=True):
                raise Violation("%s: %s of the filter obtained by %s differ from those of the class"
                                % (kind, what, how))
    return {"labels": common.labels(case) + (["default model"] if case["default"] else []),
            "nontrivial": bool(np.any(base[2] != base[2][:1]))}
