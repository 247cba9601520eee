"""Reference models of the learning rules, written from the documented formulas, in a chosen precision.

Each model is driven by the observed error of every sample (so a reference does not drift away from the filter) and
gives the increment the filter has to make.
"""
import numpy as np

from .lib import LD


def _sgn(v):
    return np.sign(v)


class Ref:
    """inc(e, x): increment for error e and input x."""

    def __init__(self, kind, n, opts, dtype=LD):
        self.kind, self.n, self.t = kind, n, dtype
        from .kinds import DEFAULTS
        for k, v in DEFAULTS[kind].items():
            v = opts.get(k, v)
            setattr(self, k, v if k in ("order", "mem") else dtype(v))
        self.pe = dtype(0)
        self.px = np.zeros(n, dtype)
        self.fi = np.zeros(n, dtype)
        self.cmu = self.mu
        if kind == "GNGD":
            self.ceps = self.eps
        self.step = None

    def inc(self, e, x):
        t = self.t
        e = t(e)
        x = np.asarray(x, dtype=t)
        k = self.kind
        p = np.sum(x * x)
        ae = abs(e)
        mu = self.mu
        if k == "LMS":
            return mu * e * x
        if k == "NLMS":
            return mu * e * x / (self.eps + p)
        if k == "LMF":
            return mu * e * e * e * x
        if k == "NLMF":
            return mu * e * e * e * x / (self.eps + p)
        if k == "SSLMS":
            return mu * _sgn(e) * _sgn(x)
        if k == "NSSLMS":
            return mu * _sgn(e) * _sgn(x) / (self.eps + p)
        if k == "Llncosh":
            return mu * np.tanh(self.lambd * e) * x
        if k == "GMCC":
            a, la = self.alpha, self.lambd
            return mu * la * a * np.exp(-la * ae ** a) * ae ** (a - 1) * _sgn(e) * x
        if k == "GNGD":
            pp = np.sum(self.px * self.px)
            self.ceps = self.ceps - self.ro * mu * e * self.pe * np.sum(x * self.px) / (pp + self.ceps) ** 2
            self.pe, self.px = e, x
            self.step = mu / (self.ceps + p)
            return self.step * e * x
        if k == "VSLMS_Mathews":
            self.cmu = self.cmu + self.ro * e * self.pe * np.sum(self.px * x)
            self.pe, self.px = e, x
            return self.cmu * e * x
        if k == "VSLMS_Ang":
            self.fi = self.a * self.fi + self.pe * self.px
            self.cmu = self.cmu + self.ro * e * np.sum(self.px * self.fi)
            self.pe, self.px = e, x
            return self.cmu * e * x
        if k == "VSLMS_Benveniste":
            self.fi = self.fi - self.cmu * self.px * np.sum(self.px * self.fi) + self.pe * self.px
            self.cmu = self.cmu + self.ro * e * np.sum(self.px * self.fi)
            self.pe, self.px = e, x
            return self.cmu * e * x
        raise KeyError(k)


def ld_solve(A, b):
    """Gaussian elimination with pivoting, in the precision of A."""
    A = np.array(A)
    b = np.array(b, dtype=A.dtype)
    n = len(b)
    for i in range(n):
        p = i + int(np.argmax(np.abs(A[i:, i])))
        if A[p, i] == 0:
            return None
        if p != i:
            A[[i, p]] = A[[p, i]]
            b[[i, p]] = b[[p, i]]
        if i + 1 < n:
            m = A[i + 1:, i] / A[i, i]
            A[i + 1:, i:] -= m[:, None] * A[i, i:][None, :]
            b[i + 1:] -= m * b[i]
    x = np.zeros(n, dtype=A.dtype)
    for i in range(n - 1, -1, -1):
        x[i] = (b[i] - np.sum(A[i, i + 1:] * x[i + 1:])) / A[i, i]
    return x
