"""Exact tendencies of smooth flows on the sphere, by three-dimensional vector calculus (no panel coordinates), and the
geometry of the rotated cubed sphere."""

import numpy as np

from . import cube, dfr

RADIUS = 6371220.0
OMEGA = 7.29212e-5
GRAV = 9.80616


def rotation(lam, phi, alpha):
    """Matrix that carries the standard cube to the one whose panel 0 is centred at (lam, phi), turned by alpha."""
    c, s = np.cos, np.sin
    Rz = np.array([[c(lam), -s(lam), 0], [s(lam), c(lam), 0], [0, 0, 1]])
    Ry = np.array([[c(phi), 0, -s(phi)], [0, 1, 0], [s(phi), 0, c(phi)]])
    Rx = np.array([[1, 0, 0], [0, c(alpha), s(alpha)], [0, -s(alpha), c(alpha)]])
    return Rz @ Ry @ Rx


class Tile:
    """Solution points of one tile of the cubed sphere: element (row, col), then (x2, x1) inside the element."""

    def __init__(self, size, rank, nel_panel, ns, lam=0.0, phi=0.0, alpha=0.0):
        t = cube.Tiles(size)
        self.panel, row, col = t.locate(rank)
        x1, x2, d = t.bounds(rank)
        ne = nel_panel // t.n
        self.ne, self.ns = ne, ns
        self.dx = d / ne
        xi, self.w = dfr.nodes(ns)
        a = (x1 + self.dx * np.arange(ne))[:, None] + self.dx * (xi + 1)[None, :] / 2  # (el, pt)
        b = (x2 + self.dx * np.arange(ne))[:, None] + self.dx * (xi + 1)[None, :] / 2
        self.x1 = np.broadcast_to(a[None, :, None, :], (ne, ne, ns, ns))
        self.x2 = np.broadcast_to(b[:, None, :, None], (ne, ne, ns, ns))
        self.R = rotation(lam, phi, alpha)
        self.p = cube.position(self.panel, self.x1, self.x2) @ self.R.T
        a1, a2 = cube.basis(self.panel, self.x1, self.x2)
        self.a1, self.a2 = a1 @ self.R.T, a2 @ self.R.T  # d(position)/dx1,2 on the unit sphere
        g11, g12, g22 = (np.sum(u * v, -1) for u, v in ((self.a1, self.a1), (self.a1, self.a2), (self.a2, self.a2)))
        self.g = (g11, g12, g22)
        self.det = g11 * g22 - g12**2

    def contra(self, v):
        """Contravariant components (per radian) of tangent vectors given on the unit sphere."""
        g11, g12, g22 = self.g
        b1, b2 = np.sum(self.a1 * v, -1), np.sum(self.a2 * v, -1)
        return (g22 * b1 - g12 * b2) / self.det, (g11 * b2 - g12 * b1) / self.det

    def grad_components(self, g):
        """d/dx1 and d/dx2 of a field with tangent gradient g (unit sphere)."""
        return np.sum(self.a1 * g, -1), np.sum(self.a2 * g, -1)

    def flat(self, a):
        return np.ascontiguousarray(a).reshape(a.shape[:-2] + (self.ns * self.ns,))


class Poly:
    """Random smooth polynomial in space (used through its restriction to the sphere), with its gradient."""

    def __init__(self, rng, deg=2, scale=1.0, const=0.0):
        self.const = const
        self.b = rng.uniform(-1, 1, 3) * scale
        B = rng.uniform(-1, 1, (3, 3)) * scale
        self.B = (B + B.T) / 2 if deg >= 2 else np.zeros((3, 3))
        self.L = rng.uniform(-1, 1, (3, 3)) if deg >= 3 else None
        self.s = scale

    def __call__(self, p):
        out = self.const + p @ self.b + np.sum((p @ self.B) * p, -1)
        if self.L is not None:
            l = p @ self.L.T
            out = out + self.s * l[..., 0] * l[..., 1] * l[..., 2]
        return out

    def grad(self, p):
        out = self.b + 2 * (p @ self.B)
        if self.L is not None:
            l = p @ self.L.T
            L = self.L
            out = out + self.s * (l[..., 1:2] * l[..., 2:3] * L[0] + l[..., 0:1] * l[..., 2:3] * L[1]
                                  + l[..., 0:1] * l[..., 1:2] * L[2])
        return out


def project(p, v):
    return v - p * np.sum(p * v, -1)[..., None]


def along(fn, p, d, eps=1e-30):
    """Derivative of fn along the direction d (complex step; fn is polynomial)."""
    return np.imag(fn(p + 1j * eps * d)) / eps


def tangent_frame(p):
    e = np.where(np.abs(p[..., 2:3]) < 0.8, np.array([0.0, 0.0, 1.0]), np.array([1.0, 0.0, 0.0]))
    e1 = np.cross(e, p)
    e1 /= np.linalg.norm(e1, axis=-1, keepdims=True)
    return e1, np.cross(p, e1)


def divergence(vec, p):
    """Surface divergence (unit sphere) of a tangent vector field."""
    e1, e2 = tangent_frame(p)
    return np.sum(e1 * along(vec, p, e1), -1) + np.sum(e2 * along(vec, p, e2), -1)


class ShallowFlow:
    """Smooth shallow-water flow over smooth topography and its exact tendencies."""

    def __init__(self, rng, deg=2, height=8000.0, dh=800.0, wind=60.0, mountain=0.0):
        self.h = Poly(rng, deg, dh, const=height)
        self.psi = Poly(rng, deg, wind / 2)
        self.chi = Poly(rng, deg, wind / 4)
        self.b = Poly(rng, deg, mountain / 4) if mountain else None

    def wind(self, p):
        """Tangent velocity (m/s); valid for complex p close to the sphere."""
        g = self.chi.grad(p)
        return np.cross(p, self.psi.grad(p)) + g - p * np.sum(p * g, -1)[..., None]

    def mass_flux(self, p):
        return self.h(p)[..., None] * self.wind(p)

    def tendencies(self, p, a=RADIUS, omega=OMEGA, g=GRAV):
        """d(h)/dt and d(h v)/dt (vector), and the largest magnitude of the terms that make them up."""
        h, v = self.h(p), self.wind(p)
        div = divergence(self.mass_flux, p) / a
        adv = project(p, along(self.wind, p, v)) / a
        f = 2 * omega * p[..., 2]
        cor = f[..., None] * np.cross(p, v)
        gs = self.h.grad(p)
        if self.b is not None:
            gs = gs + self.b.grad(p)
        grav = g * project(p, gs) / a
        mom = -(div[..., None] * v + h[..., None] * (adv + cor + grav))
        scale = [np.max(np.abs(div)), np.max(np.linalg.norm(mom, axis=-1))]
        return -div, mom, scale
