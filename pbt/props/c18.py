"""C18: refused data leaves the filter as it was."""
import numpy as np
from hypothesis import strategies as st

from .. import common, gen, hist, kinds
from ..lib import Violation

ID = "C18"
BUDGET = {"quick": 2250, "thorough": 9000}
RULE = ("case = a history of valid calls with invalid batch runs (lengths that differ, another number of columns, "
        "non-numeric content anywhere) and invalid single samples inserted at drawn points; every invalid call has to raise, and everything else "
        "has to go as in a twin that never saw them. Non-trivial: a refused call is followed by learning")
BAD = ["d-short", "d-long", "d-empty", "cols+1", "cols-1", "cols*2", "text-x", "text-d", "object-x", "object-d",
       "ragged", "one-col", "dict-d", "raise-x", "raise-d", "d-col", "d-2d", "flat", "3d"]
# what a single sample can have of these
SINGLE = ["cols+1", "cols-1", "cols*2", "text-x", "text-d", "object-x", "object-d", "ragged", "dict-d", "raise-x"]


class Raising:
    """A sequence that cannot be converted."""

    def __init__(self, length):
        self.length = length

    def __len__(self):
        return self.length

    def __array__(self, *a, **k):
        raise OSError("no data")


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(hi=600))
    N = case["N"]
    case["bad"] = [{"at": draw(st.integers(0, N)), "how": draw(st.sampled_from(BAD)), "len": draw(st.integers(1, 9)),
                    "pos": draw(st.integers(0, 8)), "seed": draw(gen.SEEDS),
                    "via": draw(st.sampled_from(["run", "run", "run", "pretrained", "adapt", "adapt"])),
                    "lists": draw(st.booleans())}
                   for _ in range(draw(st.integers(1, 4)))]
    return case


def cases(tier):
    return cases_(tier)


def invalid(b, n):
    """(d, x) of an invalid batch, and whether it is invalid at all for this size."""
    rs = np.random.RandomState(b["seed"])
    L = b["len"]
    x, d = rs.normal(0, 1, (L, n)), rs.normal(0, 1, L)
    how = b["how"]
    p = b["pos"] % L
    if how == "d-short":
        d = d[:L - 1]
    elif how == "d-long":
        d = rs.normal(0, 1, L + 1 + b["pos"])
    elif how == "d-empty":
        d = d[:0]
    elif how == "cols+1":
        x = rs.normal(0, 1, (L, n + 1))
    elif how == "cols*2":
        x = rs.normal(0, 1, (L, 2 * n))
    elif how == "one-col":
        x = rs.normal(0, 1, (L, 1)) if n > 1 else rs.normal(0, 1, (L, 2))
    elif how == "cols-1":
        x = rs.normal(0, 1, (L, n - 1)) if n > 1 else rs.normal(0, 1, (L, 3))
    elif how == "raise-x":
        x = Raising(L)
    elif how == "raise-d":
        d = Raising(L)
    elif how == "d-col":
        d = d.reshape(-1, 1)
    elif how == "d-2d":
        d = rs.normal(0, 1, (L, 2 + b["pos"] % 2))
    elif how == "flat":
        x = x[:, 0]
    elif how == "3d":
        x = rs.normal(0, 1, (L, n, 1 + b["pos"] % 2))
    elif how in ("text-x", "object-x", "ragged"):
        x = x.tolist()
        if how == "ragged":
            x[p] = x[p] + [1.0]
            if L == 1:
                x[p] = [[1.0, 2.0]] + x[p]
        else:
            x[p][b["pos"] % n] = "abc" if how == "text-x" else object()
    else:
        d = d.tolist()
        d[p] = {"text-d": "abc", "object-d": object(), "dict-d": {}}[how]
    if b["lists"] and isinstance(x, np.ndarray) and isinstance(d, np.ndarray):
        x, d = x.tolist(), d.tolist()
    return d, x


def single(b, n):
    """(d, x) of an invalid sample: one row of the invalid batch, in the ways one sample can be invalid."""
    how = b["how"]
    if how == "raise-x":
        return 0.5, Raising(n)
    if n == 2 and how == "cols-1":   # one value alone stands for all the inputs in some kinds
        how = "cols+1"
    d, x = invalid(dict(b, how=how), n)
    p = b["pos"] % b["len"]
    return d[p], x[p]


def check(case):
    from .c03 import cut
    c, x, d, opts = hist.prepare(case)
    n, N = c["n"], len(d)
    ops = cut(case["ops"], [b["at"] for b in case["bad"]])
    f, g = kinds.make(c, opts), kinds.make(c, opts)
    A, B = hist.Rec(N, n), hist.Rec(N, n)
    at = 0
    refused = 0

    def attack():
        nonlocal refused
        for b in case["bad"]:
            if b["at"] != at:
                continue
            bd, bx = invalid(b, n)
            w = np.array(g.w)
            pre = b["via"] == "pretrained"
            one = b["via"] == "adapt" and b["how"] in SINGLE
            try:
                if pre:
                    g.pretrained_run(bd, bx)
                elif one:
                    g.adapt(*single(b, n))
                else:
                    g.run(bd, bx)
            except Exception:
                refused += 1
            else:
                raise Violation("%s of size %d accepts a %s with %s" % (c["kind"], n, "sample" if one else "batch", b["how"]))
            if not np.array_equal(w, g.w, equal_nan=True):
                raise Violation("%s: a refused %s (%s) changed the weights" % (c["kind"], "sample" if one else "batch", b["how"]))

    attack()
    early = refused
    for op in ops:
        hist.drive(f, [op], x, d, A, at)
        hist.drive(g, [op], x, d, B, at)
        at += op[1]
        early = refused if at < N else early
        attack()
    xp, dp = hist.perturbed(c, x, d)
    P = hist.drive(kinds.make(c, opts), ops, xp, dp)
    wt, H = hist.tolerance(A, P)
    H = min(H, hist.tie_horizon(c, opts, x, d, A, B))
    hist.same(A, B, x, d, wt, H, "%s without and with refused calls (%s)"
              % (c["kind"], ", ".join(b["how"] for b in case["bad"])))
    return {"labels": common.labels(case) + ["bad:" + b["how"] for b in case["bad"]]
            + ["via:" + b["via"] for b in case["bad"]],
            "nontrivial": any(b["at"] < N for b in case["bad"]) and bool(np.any(A.w != A.w[:1]) or N == 1)}
