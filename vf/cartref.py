"""Independent model of the discretised two-dimensional Euler tendencies in a closed box (flux reconstruction on
Gauss-Legendre points, AUSM common fluxes, solid walls)."""

import numpy as np

from . import dfr

P0, RD, CP, GRAV = 100000.0, 287.05, 1005.46, 9.80616
GAM = CP / (CP - RD)


def pressure(rt):
    return P0 * (RD * rt / P0) ** GAM


def flux(q, d):
    r, ru, rw, rt = q
    v = q[1 + d] / r
    p = pressure(rt)
    f = np.stack([r * v, ru * v, rw * v, rt * v])
    f[1 + d] += p
    return f


def ausm(L, R, d):
    pl, pr = pressure(L[3]), pressure(R[3])
    al, ar = np.sqrt(GAM * pl / L[0]), np.sqrt(GAM * pr / R[0])
    ml, mr = L[1 + d] / L[0] / al, R[1 + d] / R[0] / ar
    m = ((ml + 1) ** 2 - (mr - 1) ** 2) / 4
    up = np.real(m) > 0
    f = np.where(up, L * m * al, R * m * ar)
    f[1 + d] += ((1 + ml) * pl + (1 - mr) * pr) / 2
    return f


def wall(q, d):
    f = np.zeros_like(q)
    f[1 + d] = pressure(q[3])
    return f


def rhs(Q, nx, nz, ns, dx, dz):
    """Q: (4, nz, nx, ns*ns); points inside an element ordered (z, x)."""
    ops = dfr.Ops(ns)
    q = Q.reshape(4, nz, nx, ns, ns)
    w, e = ops.trace(q, 4)  # (4, nz, nx, ns)
    b, t = ops.trace(q, 3)
    Fx = np.empty((4, nz, nx + 1, ns), dtype=q.dtype)
    Fx[:, :, 1:-1] = ausm(e[:, :, :-1], w[:, :, 1:], 0)
    Fx[:, :, 0], Fx[:, :, -1] = wall(w[:, :, 0], 0), wall(e[:, :, -1], 0)
    Fz = np.empty((4, nz + 1, nx, ns), dtype=q.dtype)
    Fz[:, 1:-1] = ausm(t[:, :-1], b[:, 1:], 1)
    Fz[:, 0], Fz[:, -1] = wall(b[:, 0], 1), wall(t[:, -1], 1)
    out = -(2 / dx) * ops.deriv(flux(q, 0), Fx[:, :, :-1], Fx[:, :, 1:], 4)
    out = out - (2 / dz) * ops.deriv(flux(q, 1), Fz[:, :-1], Fz[:, 1:], 3)
    out[2] -= GRAV * q[0]
    return out.reshape(Q.shape)
