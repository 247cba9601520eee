"""C01: a batch run reports a-priori outputs, errors and the weight history."""
import numpy as np
from hypothesis import strategies as st

from .. import common, hist, kinds
from ..lib import Violation

ID = "C01"
BUDGET = {"quick": 900, "thorough": 6000}
RULE = ("case = (kind, size, options, initial weights, data, sequence of run/adapt/online calls) for one filter; every "
        "batch run in it is checked row by row. Non-trivial: some batch run whose weights move")


FREE = ("GMCC", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS", "OCNLMS", "SSLMS")


def cases(tier):
    return cases_(tier)


@st.composite
def cases_(draw, tier):
    case = draw(common.hist_case(hi=4000 if tier == "thorough" else 1500))
    case["hit"] = draw(st.integers(0, 7)) == 0      # the last target is what the filter predicts
    case["layout"] = draw(st.sampled_from(["C", "C", "F", "rev", "wide"]))
    return case


def laid(x, how):
    """The same matrix in another memory layout."""
    if how == "F":
        return np.array(x, order="F")
    if how == "rev":
        return x[::-1].copy()[::-1]
    if how == "wide":
        big = np.full((2 * len(x), x.shape[1] + 2), 7.0)
        big[::2, 1:-1] = x
        return big[::2, 1:-1]
    return x.copy()


def check(case):
    c, x, d, opts = hist.prepare(case)
    if case["hit"] and len(d):
        y = kinds.make(c, opts).run(d.copy(), x.copy())[0]
        if np.isfinite(y[-1]):
            d[-1] = y[-1]
    n, N = c["n"], len(d)
    f = kinds.make(c, opts)
    twin = kinds.make(c, opts)          # gets every sample singly, through predict and adapt
    at, moved = 0, False
    for mode, ln in case["ops"]:
        b = at + ln
        if mode != "run":
            for k in range(at, b):
                f.adapt(float(d[k]), x[k].copy())
                twin.adapt(float(d[k]), x[k].copy())
            at = b
            continue
        before = np.array(f.w, dtype=float)
        y, e, w = f.run(d[at:b].copy(), laid(x[at:b], case["layout"]))
        hist.shapes(y, e, w, ln, n)
        end = np.array(f.w, dtype=float)
        y, e, w = (np.array(a, dtype=float) for a in (y, e, w))
        full = np.vstack([w, end[None, :]])
        H = hist.finite_until(full, )
        if H and not np.array_equal(w[0], before):
            raise Violation("row 0 of the weight history is %s, the weights before the run were %s"
                            % (hist.short(w[0]), hist.short(before)))
        m = min(H, ln)
        ref = np.sum(w[:m] * x[at:at + m], axis=1)
        mag = np.sum(np.abs(w[:m] * x[at:at + m]), axis=1)
        if c["kind"] != "OCNLMS":
            bad = ~(np.abs(y[:m] - ref) <= 1e-11 * mag + 1e-300)
            if bad.any():
                k = int(np.flatnonzero(bad)[0])
                raise Violation("output of sample %d of %d is %.17g, row %d of the weight history times the input "
                                "is %.17g" % (k, ln, y[k], k, ref[k]))
        dk = d[at:at + m]
        bad = ~(np.abs(e[:m] - (dk - y[:m])) <= 1e-14 * (np.abs(dk) + np.abs(y[:m])) + 1e-300)
        if bad.any():
            k = int(np.flatnonzero(bad)[0])
            raise Violation("error of sample %d of %d is %.17g, target minus output is %.17g"
                            % (k, ln, e[k], dk[k] - y[k]))
        # the twin takes the weights of every row: what it predicts there, and what it learns there
        tight = 1e-9
        free = c["kind"] in FREE
        for k in range(m):
            if free:        # such a step depends on the weights before it only: compared one by one
                twin.w[...] = w[k]
            synced = np.max(np.abs(twin.w - w[k])) <= tight * max(np.max(np.abs(w[k])), 1e-300)
            if not synced:
                # rounding may drive two histories apart in an unstable configuration; see C02
                sc = np.max(np.abs(full[:k + 1]))
                dif = np.max(np.abs(twin.w - w[k]))
                if dif > 1e-6 * sc and stable(c, opts, x, d, at + k):
                    raise Violation("row %d (of %d) of the weight history is not what the samples before it teach: "
                                    "%s, learned one by one %s" % (k, ln, hist.short(w[k]), hist.short(twin.w)))
                m = k
                break
            p = float(twin.predict(x[at + k].copy()))
            t = 1e-8 * (mag[k] + abs(p) + abs(y[k]) + np.max(np.abs(w[k])) * np.sum(np.abs(x[at + k]))) + 1e-300
            if not abs(p - y[k]) <= t:
                raise Violation("output of sample %d of %d is %.17g, the filter's prediction at that moment is %.17g"
                                % (k, ln, y[k], p))
            twin.adapt(float(d[at + k]), x[at + k].copy())
            if free and k + 1 < H:
                step(k, ln, w[k], full[k + 1], twin.w, abs(e[k]), np.max(np.abs(d[:at + k + 1]))
                     + np.sum(np.abs(w[k])) * np.max(np.abs(x[:at + k + 1])))
        if m == ln and H == ln + 1:
            dif = np.max(np.abs(twin.w - end))
            if not dif <= 1e-6 * np.max(np.abs(full)) + 1e-300 and stable(c, opts, x, d, b):
                raise Violation("weights after a run of %d samples are %s, learned one by one %s"
                                % (ln, hist.short(end), hist.short(twin.w)))
        if m < ln or H <= ln:
            moved = moved or m > 1
            break
        moved = moved or bool(np.any(full[1:] != full[:-1]))
        at = b
    return {"labels": common.labels(case), "nontrivial": moved}


def step(k, ln, w, after, taught, e, mag):
    """The step a batch run makes from one row of the history to the next is the step a single sample makes."""
    if not e > 1e-9 * mag:
        return                  # only rounding, and its sign, are left of the error
    got, want = after - w, taught - w
    t = 1e-6 * np.max(np.abs(want)) + 1e-15 * (np.max(np.abs(after)) + np.max(np.abs(w))) + 1e-300
    if not np.all(np.abs(got - want) <= t):
        raise Violation("the weights go from %s before sample %d (of %d) to %s, learning that sample alone leads to %s"
                        % (hist.short(w), k, ln, hist.short(after), hist.short(taught)))


def stable(c, opts, x, d, upto):
    """Whether the difference of two histories up to sample `upto` stays far below 1e-6 under 1e-13 perturbations."""
    xp, dp = hist.perturbed(c, x, d)
    ops = [["adapt", upto]]
    A = hist.drive(kinds.make(c, opts), ops, x[:upto], d[:upto])
    P = hist.drive(kinds.make(c, opts), ops, xp[:upto], dp[:upto])
    wt, H = hist.tolerance(A, P)
    H = min(H, hist.tie_horizon(c, opts, x[:upto], d[:upto], A, P))
    return H >= upto + 1 and wt[-1] <= 1e-6 * np.max(np.abs(A.w)) if upto else True
