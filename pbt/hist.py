"""Driving real filters through histories, and comparing two histories."""
import numpy as np

from . import gen, kinds
from .lib import Violation


class Rec:
    """What was observed: per sample the output, the error, the weights before it; and the weights at the end."""

    def __init__(self, N, n):
        self.y = np.full(N, np.nan)
        self.e = np.full(N, np.nan)
        self.w = np.full((N, n), np.nan)
        self.end = None
        self.runs = []


def prepare(case):
    c = case["cfg"]
    N = case["N"]
    w0 = kinds.start_weights(c)
    x, d = gen.expand(case["data"], N, c["n"], w0)
    x = kinds.guard(c, x)
    return c, x, d, kinds.options(c, x, d)


def number(v, k):
    """The number as one of the types that a caller may have it in."""
    if k % 3 == 1:
        return np.float64(v)
    if k % 3 == 2 and abs(v) < 2 ** 50 and v == int(v):
        return int(v)
    return float(v)


def drive(f, ops, x, d, rec=None, at=0):
    n = x.shape[1]
    rec = rec or Rec(len(d), n)
    for mode, ln in ops:
        b = at + ln
        if mode == "run":
            y, e, w = f.run(d[at:b].copy(), x[at:b].copy())
            shapes(y, e, w, ln, n)
            rec.y[at:b], rec.e[at:b], rec.w[at:b] = y, e, w
            rec.runs.append((at, b))
        else:
            for k in range(at, b):
                rec.w[k] = f.w
                if mode == "online":
                    rec.y[k] = f.predict(x[k].copy())
                    rec.e[k] = d[k] - rec.y[k]
                f.adapt(number(d[k], k), x[k].copy())
        at = b
    rec.end = np.array(f.w, dtype=float)
    return rec


def shapes(y, e, w, N, n):
    for name, a, s in (("outputs", y, (N,)), ("errors", e, (N,)), ("weight history", w, (N, n))):
        if np.shape(a) != s:
            raise Violation("a batch run over %d samples with filter size %d returned %s of shape %s"
                            % (N, n, name, np.shape(a)))


def finite_until(*arrays):
    """How many leading samples are finite and of sane magnitude in all the arrays."""
    m = min(len(a) for a in arrays)
    ok = np.ones(m, bool)
    for a in arrays:
        b = np.abs(a[:m].reshape(m, -1)) if m else np.zeros((0, 1))
        ok &= np.all(b < 1e100, axis=1)
    bad = np.flatnonzero(~ok)
    return int(bad[0]) if len(bad) else m


def broken(what, W, k, x, d, inc=None):
    """Weights that stop being numbers from a sample on though everything about it (the increment too) is moderate."""
    if k < 0 or k + 1 >= len(W) or np.all(np.isfinite(W[k + 1])):
        return
    big = max(np.max(np.abs(v), initial=0) for v in (W[k], x[k], np.atleast_1d(d[k])))
    if big < 1e10 and (inc is None or np.all(np.abs(inc) < 1e30)):
        raise Violation("%s: the weights become %s at sample %d of %d (input %s, target %.17g, weights before %s)"
                        % (what, short(W[k + 1]), k, len(d), short(x[k]), d[k], short(W[k])))


def rls_condition(c, x):
    """Largest condition number (up to 1e12) of the matrix behind an RLS filter, looked up at some samples."""
    o = c["opts"]
    mu = float(o.get("mu", 0.1))
    A = float(o.get("eps", 0.001)) * np.eye(x.shape[1])
    top, step = 1.0, max(1, len(x) // 30)
    with np.errstate(all="ignore"):
        for k, v in enumerate(x):
            A = mu * A + np.outer(v, v)
            if k % step == 0 or k == len(x) - 1:
                if not np.all(np.isfinite(A)):
                    return 1e12
                s = np.linalg.eigvalsh(A)
                top = max(top, s[-1] / s[0] if s[0] > 0 else 1e12)
    return float(min(top, 1e12))


def perturbed(c, x, d, seed=99, size=1e-13):
    """The same data up to relative changes of 1e-13: how far histories part tells how far rounding may drive them."""
    rs = np.random.RandomState(seed)
    if c["kind"] == "RLS":                  # rounding acts on the covariance, whose condition amplifies it
        size = size * max(1.0, 1e-4 * rls_condition(c, x))
    # not plain signs: perturbations of equal size may cancel just where the recursion cancels
    xp = x * (1 + size * rs.choice([-1.0, 1.0], x.shape) * rs.uniform(0.5, 1.5, x.shape))
    dp = d * (1 + size * rs.choice([-1.0, 1.0], d.shape) * rs.uniform(0.5, 1.5, d.shape))
    return xp, dp


SIGN_KINDS = ("SSLMS", "NSSLMS")


def tie_horizon(c, opts, x, d, A, B):
    """First sample whose error is so small that its sign may depend on rounding (kinds that use the sign)."""
    if not (c["kind"] in SIGN_KINDS or (c["kind"] == "GMCC" and opts.get("alpha", 2) < 2)):
        return len(d)
    mag = np.abs(d) + np.sum(np.abs(A.w) * np.abs(x), axis=1)
    ea = d - np.sum(A.w * x, axis=1)
    eb = d - np.sum(B.w * x, axis=1)
    near = (np.abs(ea) < 1e-8 * mag) & ~((ea == 0) & (eb == 0))
    near |= np.sign(ea) != np.sign(eb)
    i = np.flatnonzero(near & (mag > 0))
    return int(i[0]) + 1 if len(i) else len(d)


def tolerance(A, P, base=1e-9, factor=100.0):
    """Per sample: how much y/e (first) and w (second) of an equal history may differ, and where comparison ends."""
    N = len(A.y)
    W = np.vstack([A.w, A.end[None, :]])
    WP = np.vstack([P.w, P.end[None, :]])
    ws = np.maximum.accumulate(np.max(np.abs(W), axis=1)) if W.shape[1] else np.zeros(N + 1)
    dv = np.maximum.accumulate(np.max(np.abs(W - WP), axis=1))
    wt = base * ws + factor * dv + 1e-290
    with np.errstate(all="ignore"):
        end = np.flatnonzero(~(wt <= 1e-3 * ws + 1e-289) | ~np.isfinite(wt) | (ws > 1e80))
    H = int(end[0]) if len(end) else N + 1
    return wt, H


def same(A, B, x, d, wt, H, what, base=1e-9):
    """Outputs, errors and weights of two histories agree within the tolerance for the first H weight rows."""
    N = len(A.y)
    WA = np.vstack([A.w, A.end[None, :]])
    WB = np.vstack([B.w, B.end[None, :]])
    H = min(H, N + 1)
    bad = ~(np.max(np.abs(WA[:H] - WB[:H]), axis=1) <= wt[:H]) if WA.shape[1] else np.zeros(H, bool)
    if bad.any():
        k = int(np.flatnonzero(bad)[0])
        raise Violation("%s: the weights before sample %d (of %d) differ: %s and %s"
                        % (what, k, N, short(WA[k]), short(WB[k])))
    M = min(H, N)
    sx = np.sum(np.abs(x[:M]), axis=1)
    mag = np.sum(np.abs(A.w[:M] * x[:M]), axis=1)
    # outputs may also be made of what was seen before (the centre of OCNLMS)
    past = np.maximum.accumulate(np.nan_to_num(mag + np.abs(d[:M]))) if M else mag
    yt = wt[:M] * sx + base * (mag + np.nan_to_num(np.abs(A.y[:M]))) + 1e-14 * past + 1e-290
    et = yt + base * np.abs(d[:M])
    for name, a, b, t in (("output", A.y, B.y, yt), ("error", A.e, B.e, et)):
        dif = np.abs(a[:M] - b[:M])
        bad = ~(dif <= t) & ~np.isnan(a[:M]) & ~np.isnan(b[:M])
        if bad.any():
            k = int(np.flatnonzero(bad)[0])
            raise Violation("%s: the %s of sample %d (of %d) differs: %.17g and %.17g"
                            % (what, name, k, N, a[k], b[k]))


def short(v):
    v = np.atleast_1d(v)
    return "[" + ", ".join("%.12g" % t for t in v[:6]) + (", ..." if len(v) > 6 else "") + "]"
