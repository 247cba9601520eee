"""Strategies shared by the filter checks."""
from hypothesis import strategies as st

from . import gen, kinds, mine

PRODUCTS = mine.sizes("filters", 64, 40000)
NEW = mine.fresh("filters", 64, 40000)
MODES = ("run", "adapt", "online")


@st.composite
def hist_case(draw, kind_list=kinds.KINDS, typical=24, hi=1200, rare=0.06, modes=MODES, most=5, stable=True,
              data_kw=None, nhi=8, lo=1):
    n = gen.filter_size(draw, nhi)
    N = gen.length(draw, typical, hi, lo=lo, rare=rare)
    if N > 10000:
        n = min(n, 2)
    elif draw(st.integers(0, 30)) == 17 and n >= lo:     # as many samples as inputs
        N = n
    c = draw(kinds.config(kind_list, n=n, stable=stable))
    if rare and draw(st.integers(0, 24 if NEW else 79)) == 0:     # as many numbers as some constant of the source says
        N = min(max(lo, draw(st.sampled_from(PRODUCTS or [1])) // c["n"] + draw(st.integers(0, 1))), 8000)
    if N * c["n"] > 40000 and N <= 10000:
        N = max(lo, 40000 // c["n"])
    return {"cfg": c, "N": N, "data": draw(gen.data(c["n"], N, **(data_kw or {}))),
            "ops": draw(gen.ops(N, modes, most))}


def labels(case):
    out = [kinds.label(case["cfg"]), gen.data_label(case["data"])]
    N = case["N"]
    out.append("N:1" if N == 1 else "N:2-9" if N < 10 else "N:10-99" if N < 100 else "N:100+")
    if case["cfg"]["n"] == 1:
        out.append("n:1")
    if len(case.get("ops", ())) > 1:
        out.append("several calls")
    for m in sorted({m for m, _ in case.get("ops", ())}):
        out.append("mode:" + m)
    return out
