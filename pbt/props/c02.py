"""C02: batch, chunked and sample-by-sample filtering are equivalent."""
from hypothesis import strategies as st

from .. import common, gen, hist, kinds

ID = "C02"
BUDGET = {"quick": 1580, "thorough": 6000}
RULE = ("case = one sample sequence delivered in two ways (lists of run / adapt / predict+adapt calls, one of them "
        "mostly a single batch run) to two fresh filters; compared within a tolerance measured by a third, perturbed, "
        "filter. Non-trivial: the deliveries differ and at least 2 samples are compared")


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(hi=4000 if tier == "thorough" else 1200, lo=1))
    if draw(st.integers(0, 3)):
        case["ops2"] = [["run", case["N"]]]
    else:
        case["ops2"] = draw(gen.ops(case["N"]))
    return case


def cases(tier):
    return cases_(tier)


def check(case):
    c, x, d, opts = hist.prepare(case)
    xp, dp = hist.perturbed(c, x, d)
    A = hist.drive(kinds.make(c, opts), case["ops2"], x, d)
    B = hist.drive(kinds.make(c, opts), case["ops"], x, d)
    P = hist.drive(kinds.make(c, opts), case["ops2"], xp, dp)
    wt, H = hist.tolerance(A, P)
    H = min(H, hist.tie_horizon(c, opts, x, d, A, B))
    hist.same(A, B, x, d, wt, H, "%s fed by %s and by %s" % (c["kind"], case["ops2"], case["ops"]))
    lab = common.labels(case)
    if H < len(d):
        lab.append("horizon cut")
    return {"labels": lab, "nontrivial": case["ops"] != case["ops2"] and min(H, len(d)) >= 2}
