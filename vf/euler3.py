"""Exact tendencies of smooth three-dimensional compressible flows over smooth terrain around a planet, by vector
calculus (no panel coordinates), for the shallow- and deep-atmosphere geometries."""

import numpy as np

from . import sphere

P0, RD, CP, GRAV = 100000.0, 287.05, 1005.46, 9.80616
GAM = CP / (CP - RD)
E = 1e-25


def dz(fn, p, z):
    return np.imag(fn(p, z + 1j * E)) / E


def ds(fn, p, z, d):
    return np.imag(fn(p + 1j * E * d, z)) / E


class Flow:
    def __init__(self, rng, radius, ztop, deep, omega, wind=40.0, vert=2.0, mountain=0.0, deg=2):
        self.a, self.ztop, self.deep, self.omega = radius, ztop, deep, omega
        P = lambda s, c=0.0, d=deg: sphere.Poly(rng, d, s, const=c)
        self.q1, self.q2 = P(0.02), P(0.02)
        self.psi, self.chi, self.sh = P(wind / 2), P(wind / 4), P(0.3, 1.0, 1)
        self.wv = P(vert)
        self.zb = P(mountain / 6, mountain) if mountain else None
        self.k = rng.uniform(0.5, 1.5, 4)

    # fields (valid for complex arguments near the real ones)
    def r(self, z):
        return self.a + z if self.deep else self.a + 0 * z

    def bottom(self, p):
        return self.zb(p) if self.zb is not None else 0 * p[..., 0]

    def rho(self, p, z):
        return 1.2 * np.exp(-z / 9000.0) * (1 + self.q1(p) * np.cos(self.k[0] * z / self.ztop))

    def theta(self, p, z):
        return 300.0 * (1 + 0.1 * z / self.ztop + self.q2(p) * np.sin(self.k[1] * z / self.ztop + 0.3))

    def rt(self, p, z):
        return self.rho(p, z) * self.theta(p, z)

    def pres(self, p, z):
        return P0 * (RD / P0 * self.rt(p, z)) ** GAM

    def hor(self, p, z):
        g = self.chi.grad(p)
        t = np.cross(p, self.psi.grad(p)) + g - p * np.sum(p * g, -1)[..., None]
        s = self.sh(p) * np.cos(self.k[2] * z / self.ztop)
        return t * s[..., None]

    def slope(self, p):
        """Tangent gradient of the terrain on the unit sphere."""
        g = self.zb.grad(p)
        return g - p * np.sum(p * g, -1)[..., None]

    def eta(self, p, z):
        b = self.bottom(p)
        return (z - b) / (self.ztop - b)

    def etadot(self, p, z):
        e = self.eta(p, z)
        return 4 * e * (1 - e) * self.wv(p) / self.ztop

    def w(self, p, z):
        out = self.etadot(p, z) * (self.ztop - self.bottom(p))
        if self.zb is not None:
            out = out + np.sum(self.hor(p, z) * self.slope(p), -1) / self.r(z) * (1 - self.eta(p, z))
        return out

    # exact tendencies
    def tendencies(self, p, z):
        """(drho, dmom_h (vector), dmom_z, drho_theta) and the size of the largest contribution to each."""
        r, th, v, w, pr = self.rho(p, z), self.theta(p, z), self.hor(p, z), self.w(p, z), self.pres(p, z)
        R = self.r(z)

        def div(weight):
            fh = lambda p, z: weight(p, z)[..., None] * self.hor(p, z)
            e1, e2 = sphere.tangent_frame(p)
            h = (np.sum(e1 * ds(fh, p, z, e1), -1) + np.sum(e2 * ds(fh, p, z, e2), -1)) / R
            if self.deep:
                fz = lambda p, z: self.r(z) ** 2 * weight(p, z) * self.w(p, z)
                return h + dz(fz, p, z) / R**2
            return h + dz(lambda p, z: weight(p, z) * self.w(p, z), p, z)

        dr, drt = div(self.rho), div(self.rt)
        vh = sphere.project(p, ds(self.hor, p, z, v)) / R[..., None] + w[..., None] * dz(self.hor, p, z)
        vz = ds(self.w, p, z, v) / R + w * dz(self.w, p, z)
        if self.deep:
            vh = vh + v * (w / R)[..., None]
            vz = vz - np.sum(v * v, -1) / R
        e1, e2 = sphere.tangent_frame(p)
        gp = (e1 * ds(self.pres, p, z, e1)[..., None] + e2 * ds(self.pres, p, z, e2)[..., None]) / R[..., None]
        gz = dz(self.pres, p, z)
        V = v + w[..., None] * p
        cor = 2 * self.omega * np.cross(np.array([0.0, 0.0, 1.0]), V)
        ch, cz = sphere.project(p, cor), np.sum(cor * p, -1)
        mh = -(dr[..., None] * v + r[..., None] * (vh + ch) + gp)
        mz = -(dr * w + r * (vz + cz) + gz + r * GRAV)
        return -dr, mh, mz, -drt


class Grid:
    """Points of one tile: (x3 el, x2 el, x1 el, point) with points ordered (x3, x2, x1)."""

    def __init__(self, size, rank, nel, nev, ns, flow, lam, phi, al, bottom=None):
        T = sphere.Tile(size, rank, nel, ns, lam, phi, al)
        self.T, self.ns, self.nev = T, ns, nev
        from . import dfr

        x, _ = dfr.nodes(ns)
        eta = (np.arange(nev)[:, None] + (x + 1)[None, :] / 2) / nev  # (el, pt)
        self.deta = 1.0 / nev
        b = flow.bottom(T.p) if bottom is None else bottom
        shp = (nev,) + T.p.shape[:2] + (ns,) + T.p.shape[2:4]
        ex = lambda a: np.broadcast_to(a[None, :, :, None, :, :], shp)
        self.eta = np.broadcast_to(eta[:, None, None, :, None, None], shp)
        self.b = ex(b)
        self.z = self.b + (flow.ztop - self.b) * self.eta
        self.p = np.broadcast_to(T.p[None, :, :, None], shp + (3,))
        self.a1 = np.broadcast_to(T.a1[None, :, :, None], shp + (3,))
        self.a2 = np.broadcast_to(T.a2[None, :, :, None], shp + (3,))
        self.g = tuple(ex(x) for x in T.g)
        self.det = ex(T.det)
        self.flow = flow

    def components(self, h, vert):
        """Contravariant components (reference element units) of a vector (horizontal vector m/s.., vertical)."""
        f, T = self.flow, self.T
        R = f.r(self.z)
        g11, g12, g22 = self.g
        b1, b2 = np.sum(self.a1 * h, -1), np.sum(self.a2 * h, -1)
        c1, c2 = (g22 * b1 - g12 * b2) / self.det / R, (g11 * b2 - g12 * b1) / self.det / R
        c3 = vert
        if f.zb is not None:
            c3 = c3 - np.sum(h * f.slope(self.p), -1) / R * (1 - self.eta)
        c3 = c3 / (f.ztop - self.b)
        return c1 * 2 / T.dx, c2 * 2 / T.dx, c3 * 2 / self.deta

    def flat(self, a):
        return np.ascontiguousarray(a).reshape(a.shape[:3] + (self.ns**3,))

    def state(self):
        f, p, z = self.flow, self.p, self.z
        r = f.rho(p, z)
        c = self.components(f.hor(p, z), f.w(p, z))
        return np.stack([self.flat(x) for x in (r, r * c[0], r * c[1], r * c[2], f.rt(p, z))])

    def tendency(self):
        dr, mh, mz, drt = self.flow.tendencies(self.p, self.z)
        c = self.components(mh, mz)
        return np.stack([self.flat(x) for x in (dr, c[0], c[1], c[2], drt)])


def lonlat_points(lon, lat):
    c = np.cos(lat)
    return np.stack([c * np.cos(lon), c * np.sin(lon), np.sin(lat)], -1)


def set_terrain(sim, flow):
    """Install the terrain of a flow in a simulation, the way the mountain test cases do."""
    g = sim.geometry
    new = lambda ll: flow.bottom(lonlat_points(ll[0], ll[1]))
    old = lambda ll: flow.bottom(lonlat_points(ll[0, 0], ll[1, 0]))
    zi, zj = new(g.get_itf_i_floor(g.polar_itf_i)), new(g.get_itf_j_floor(g.polar_itf_j))
    zi[g.floor_west_edge] = 0.0
    zi[g.floor_east_edge] = 0.0
    zj[g.floor_south_edge] = 0.0
    zj[g.floor_north_edge] = 0.0
    g.apply_topography(old(g.coordVec_latlon), old(g.coordVec_latlon_itf_i), old(g.coordVec_latlon_itf_j),
                       new(g.get_floor(g.polar)), zi, zj)
    sim.metric.build_metric()
