"""Independent model of the discretised shallow-water tendencies on the whole cubed sphere: direct flux reconstruction on
Gauss-Legendre points, AUSM common fluxes at the interfaces, geometry taken from the 3-D embedding of the cube."""

import numpy as np

from . import cube, dfr, sphere


class Panel:
    def __init__(self, panel, nel, ops, R, radius):
        n = ops.n
        self.dx = (np.pi / 2) / nel
        lo = -np.pi / 4 + self.dx * np.arange(nel)
        pts = lo[:, None] + self.dx * (ops.x + 1)[None, :] / 2
        bnd = -np.pi / 4 + self.dx * np.arange(nel + 1)
        full = (nel, nel, n, n)
        self.int = Metric(panel, np.broadcast_to(pts[None, :, None, :], full), np.broadcast_to(pts[:, None, :, None], full), self.dx, R, radius)
        # west-east interfaces: (row, interface, x2 point); south-north: (interface, column, x1 point)
        self.we = Metric(panel, np.broadcast_to(bnd[None, :, None], (nel, nel + 1, n)), np.broadcast_to(pts[:, None, :], (nel, nel + 1, n)), self.dx, R, radius)
        self.sn = Metric(panel, np.broadcast_to(pts[None, :, :], (nel + 1, nel, n)), np.broadcast_to(bnd[:, None, None], (nel + 1, nel, n)), self.dx, R, radius)


class Metric:
    def __init__(self, panel, x1, x2, dx, R, radius):
        self.panel, self.x1, self.x2 = panel, x1, x2
        s = radius * dx / 2
        a1, a2 = cube.basis(panel, x1, x2)
        g11, g12, g22 = np.sum(a1 * a1, -1), np.sum(a1 * a2, -1), np.sum(a2 * a2, -1)
        det = g11 * g22 - g12**2
        self.sg = np.sqrt(det) * s * s
        self.h11, self.h12, self.h22 = g22 / det / s**2, -g12 / det / s**2, g11 / det / s**2
        self.p = cube.position(panel, x1, x2) @ R.T


def christoffel(panel, x1, x2, dx):
    """Christoffel symbols of the second kind in the reference coordinates, from the embedding (complex step twice is
    avoided by using the second derivatives of the position in closed form)."""
    a1, a2 = cube.basis(panel, x1, x2)
    g11, g12, g22 = np.sum(a1 * a1, -1), np.sum(a1 * a2, -1), np.sum(a2 * a2, -1)
    det = g11 * g22 - g12**2
    c, e1, e2 = cube.FACES[panel]
    X, Y = np.tan(x1), np.tan(x2)
    p = c + X[..., None] * e1 + Y[..., None] * e2
    r2 = 1 + X**2 + Y**2
    r = np.sqrt(r2)
    D = [((1 + X**2)[..., None] * e1), ((1 + Y**2)[..., None] * e2)]
    DD = {(0, 0): (2 * X * (1 + X**2))[..., None] * e1, (1, 1): (2 * Y * (1 + Y**2))[..., None] * e2, (0, 1): 0 * p}
    out = {}
    for (i, j), dd in DD.items():
        pi, pj = np.sum(p * D[i], -1), np.sum(p * D[j], -1)
        pij = np.sum(D[i] * D[j], -1) + np.sum(p * dd, -1)
        sec = (dd / r[..., None] - D[i] * (pj / r**3)[..., None] - D[j] * (pi / r**3)[..., None]
               - p * ((pij / r**3) - 3 * pi * pj / r**5)[..., None])
        b1, b2 = np.sum(sec * a1, -1), np.sum(sec * a2, -1)
        out[0, i, j] = (g22 * b1 - g12 * b2) / det * dx / 2
        out[1, i, j] = (g11 * b2 - g12 * b1) / det * dx / 2
        out[0, j, i], out[1, j, i] = out[0, i, j], out[1, i, j]
    return out


class Reference:
    def __init__(self, nel, ns, lam=0.0, phi=0.0, alpha=0.0, radius=sphere.RADIUS, omega=sphere.OMEGA, grav=sphere.GRAV):
        self.nel, self.ns, self.grav = nel, ns, grav
        self.ops = dfr.Ops(ns)
        self.R = sphere.rotation(lam, phi, alpha)
        self.panels = [Panel(p, nel, self.ops, self.R, radius) for p in range(6)]
        self.tiles = cube.Tiles(6)
        self.cor = []
        for p, P in enumerate(self.panels):
            m = P.int
            f = 2 * omega * m.p[..., 2]
            # (f k x v)^i = f eps: contravariant components of the rotated vector
            g11 = m.h22 * m.sg**2
            g12 = -m.h12 * m.sg**2
            g22 = m.h11 * m.sg**2
            self.cor.append((f, g11, g12, g22, m.sg))
        self.gam = [christoffel(p, P.int.x1, P.int.x2, P.dx) for p, P in enumerate(self.panels)]

    def _edge(self, arr_we, arr_sn, side):
        """Own trace along a panel side, ordered by increasing local coordinate: (nvar, nel*ns)."""
        if side == cube.SOUTH:
            a = arr_sn[0][:, 0]
        elif side == cube.NORTH:
            a = arr_sn[1][:, -1]
        elif side == cube.WEST:
            a = arr_we[0][:, :, 0]
        else:
            a = arr_we[1][:, :, -1]
        return a.reshape(a.shape[0], -1)

    def rhs(self, Q, topo=None):
        """Q: (6, 3, nel, nel, ns*ns). topo: dict with b (6, nel, nel, ns*ns), b_we (6, nel, nel+1, ns), b_sn, dz1, dz2."""
        nel, n, ops, g = self.nel, self.ns, self.ops, self.grav
        Q = np.asarray(Q).reshape(6, 3, nel, nel, n, n)
        tr = []
        for p in range(6):
            q = Q[p].copy()
            if topo is not None:
                q[0] += topo["b"][p].reshape(nel, nel, n, n)
            tr.append((ops.trace(q, 4), ops.trace(q, 3)))  # along x1 -> (west, east); along x2 -> (south, north)
        coords = {}
        out = np.empty(Q.shape, dtype=Q.dtype)
        for p in range(6):
            P = self.panels[p]
            (w, e), (s, nn) = tr[p]
            # both sides of every interface: L = value from the side of smaller coordinate
            Lw = np.empty((3, nel, nel + 1, n), dtype=Q.dtype)
            Rw = np.empty_like(Lw)
            Lw[:, :, 1:], Rw[:, :, :-1] = e, w
            Ls = np.empty((3, nel + 1, nel, n), dtype=Q.dtype)
            Rs = np.empty_like(Ls)
            Ls[:, 1:], Rs[:, :-1] = nn, s
            for side in range(4):
                q, qs, rev = self.tiles.neighbour(p, side)
                val = self._edge(tr[q][0], tr[q][1], qs)
                frac = (np.arange(nel)[:, None] + (ops.x + 1)[None, :] / 2).ravel() / nel
                a, b = self.tiles.edge_coords(q, qs, frac)
                if np.iscomplexobj(val):
                    v = cube.vec_from_contra(q, a, b, val[1].real, val[2].real) + 1j * cube.vec_from_contra(q, a, b, val[1].imag, val[2].imag)
                else:
                    v = cube.vec_from_contra(q, a, b, val[1], val[2])
                h = val[0]
                if rev:
                    v, h = v[::-1], h[::-1]
                a, b = self.tiles.edge_coords(p, side, frac)
                if np.iscomplexobj(v):
                    r, i = cube.contra_from_vec(p, a, b, v.real), cube.contra_from_vec(p, a, b, v.imag)
                    u1, u2 = r[0] + 1j * i[0], r[1] + 1j * i[1]
                else:
                    u1, u2 = cube.contra_from_vec(p, a, b, v)
                got = np.stack([h, u1, u2]).reshape(3, nel, n)
                if side == cube.SOUTH:
                    Ls[:, 0] = got
                elif side == cube.NORTH:
                    Rs[:, -1] = got
                elif side == cube.WEST:
                    Lw[:, :, 0] = got
                else:
                    Rw[:, :, -1] = got
            if topo is not None:
                Lw[0] -= topo["b_we"][p]
                Rw[0] -= topo["b_we"][p]
                Ls[0] -= topo["b_sn"][p]
                Rs[0] -= topo["b_sn"][p]
            fw = self.common(Lw, Rw, P.we, 1)
            fs = self.common(Ls, Rs, P.sn, 2)
            q = Q[p]
            m = P.int
            h, m1, m2 = q
            pr = 0.5 * g * h**2
            f1 = m.sg * np.stack([m1, m1 * m1 / h + m.h11 * pr, m2 * m1 / h + m.h12 * pr])
            f2 = m.sg * np.stack([m2, m1 * m2 / h + m.h12 * pr, m2 * m2 / h + m.h22 * pr])
            d1 = ops.deriv(f1, fw[:, :, :-1], fw[:, :, 1:], 4)
            # along x2 the common values are (nvar, interface, col, x1pt) -> per element lower/upper
            d2 = ops.deriv(f2, fs[:, :-1], fs[:, 1:], 3)
            out[p] = -(d1 + d2) / m.sg
            f, g11, g12, g22, sg = self.cor[p]
            G = self.gam[p]
            # rotation: (k x v)^1 = -v_2 / sg, (k x v)^2 = v_1 / sg
            v1, v2 = g11 * m1 + g12 * m2, g12 * m1 + g22 * m2
            out[p, 1] -= -f * v2 / sg + (G[0, 0, 0] * m1 * m1 + 2 * G[0, 0, 1] * m1 * m2 + G[0, 1, 1] * m2 * m2) / h
            out[p, 2] -= f * v1 / sg + (G[1, 0, 0] * m1 * m1 + 2 * G[1, 0, 1] * m1 * m2 + G[1, 1, 1] * m2 * m2) / h
            # the conservative form of the pressure term leaves no geometric remainder only if the metric terms of the
            # pressure tensor are accounted for analytically: sum_j,k Gamma^i_jk h^jk + (1/sg) d_j(sg h^ij) = 0
            if topo is not None:
                z1, z2 = topo["dz1"][p].reshape(h.shape), topo["dz2"][p].reshape(h.shape)
                out[p, 1] -= g * h * (m.h11 * z1 + m.h12 * z2)
                out[p, 2] -= g * h * (m.h12 * z1 + m.h22 * z2)
        return out.reshape(6, 3, nel, nel, n * n)

    def common(self, L, R, m, k):
        """AUSM flux through the interfaces of direction k (L on the side of the smaller coordinate)."""
        g = self.grav
        hkk = m.h11 if k == 1 else m.h22
        cL, cR = np.sqrt(g * L[0] * hkk), np.sqrt(g * R[0] * hkk)
        mL, mR = L[k] / (L[0] * cL), R[k] / (R[0] * cR)
        M = ((mL + 1) ** 2 - (mR - 1) ** 2) / 4
        up = np.real(M) > 0
        F = m.sg * M * np.where(up, cL * L, cR * R)
        half = 0.5 * g * m.sg
        pL, pR = half * L[0] ** 2, half * R[0] ** 2
        pr = 0.5 * ((1 + mL) * pL + (1 - mR) * pR)
        F[1] += (m.h11 if k == 1 else m.h12) * pr
        F[2] += (m.h12 if k == 1 else m.h22) * pr
        return F
