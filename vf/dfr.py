"""Independent direct-flux-reconstruction operators on the reference element [-1, 1] (Gauss-Legendre points)."""

import numpy as np


def nodes(n):
    return np.polynomial.legendre.leggauss(n)


def lagrange_at(xs, x):
    """Row of the values at x of the Lagrange polynomials through xs."""
    xs = np.asarray(xs, float)
    out = np.ones(len(xs))
    for j in range(len(xs)):
        for m in range(len(xs)):
            if m != j:
                out[j] *= (x - xs[m]) / (xs[j] - xs[m])
    return out


def diff_matrix(xs):
    """D[i, j] = derivative at xs[i] of the Lagrange polynomial j."""
    xs = np.asarray(xs, float)
    n = len(xs)
    w = np.array([1.0 / np.prod([xs[j] - xs[m] for m in range(n) if m != j]) for j in range(n)])
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                D[i, j] = w[j] / w[i] / (xs[i] - xs[j])
    for i in range(n):
        D[i, i] = -np.sum(D[i])
    return D


def modal(xs, factors):
    """Nodal matrix that multiplies the Legendre mode k of the polynomial through xs by factors[k]."""
    V = np.polynomial.legendre.legvander(np.asarray(xs, float), len(xs) - 1)
    return V @ np.diag(factors) @ np.linalg.inv(V)


def derivative_filter(n, order, cutoff):
    """Factors of the n + 2 modes of the reconstructed flux derivative."""
    N = n + 1
    Nc = int(np.floor(cutoff * N))
    a = -np.log(np.finfo(float).eps)
    k = np.arange(N + 1)
    return np.where(k <= Nc, 1.0, np.exp(-a * (np.maximum(k - Nc, 0) / max(N - Nc, 1)) ** order))


class Ops:
    filter = None  # (order, cutoff): set to model the filtered derivative

    def __init__(self, n):
        self.n = n
        self.x, self.w = nodes(n)
        self.lo = lagrange_at(self.x, -1.0)  # extrapolation to the lower end
        self.hi = lagrange_at(self.x, 1.0)
        ext = np.concatenate([[-1.0], self.x, [1.0]])
        De = diff_matrix(ext)  # derivative of the polynomial through all n+2 points
        if Ops.filter is not None:
            De = modal(ext, derivative_filter(n, *Ops.filter)) @ De
        De = De[1:-1]  # at the inner points
        self.D = De[:, 1:-1]
        self.clo = De[:, 0]
        self.chi = De[:, -1]

    def trace(self, a, axis):
        """(lower, upper) traces along an axis of length n."""
        return np.tensordot(a, self.lo, axes=(axis, 0)), np.tensordot(a, self.hi, axes=(axis, 0))

    def deriv(self, f, flo, fhi, axis):
        """Derivative (reference coordinate) of the flux with the given common values at both ends."""
        f = np.moveaxis(f, axis, -1)
        d = f @ self.D.T + flo[..., None] * self.clo + fhi[..., None] * self.chi
        return np.moveaxis(d, -1, axis)
