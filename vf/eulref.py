"""Independent model of the discretised three-dimensional compressible tendencies on the whole cubed sphere over flat
ground: direct flux reconstruction, Rusanov common fluxes, closed bottom and lid; geometry from the 3-D embedding."""

import numpy as np

from . import cube, dfr, sphere, swref

P0, RD, CP, GRAV = 100000.0, 287.05, 1005.46, 9.80616
GAM = CP / (CP - RD)


def pressure(rt):
    return P0 * (RD / P0 * rt) ** GAM


class Met:
    """Metric at points given by panel coordinates (leading dims: vertical first) and the radius factor."""

    def __init__(self, m, Rz, a, H):
        # m: swref.Metric on radius a (already in reference units); Rz broadcastable: local radius
        k = (Rz / a) ** 2
        self.sg = m.sg * k * H
        self.h = {(0, 0): m.h11 / k, (0, 1): m.h12 / k, (1, 1): m.h22 / k, (2, 2): 1 / H**2}


class Reference:
    def __init__(self, nel, nev, ns, radius, ztop, deep, omega, lam=0.0, phi=0.0, alpha=0.0):
        self.nel, self.nev, self.n = nel, nev, ns
        self.ops = ops = dfr.Ops(ns)
        self.R = sphere.rotation(lam, phi, alpha)
        self.tiles = cube.Tiles(6)
        self.H = H = ztop / nev / 2
        zc = H * (2 * np.arange(nev)[:, None] + 1 + ops.x[None, :])  # (el, pt)
        zi = 2 * H * np.arange(nev + 1)
        rad = (lambda z: radius + z) if deep else (lambda z: radius + 0 * z)
        self.deep, self.omega, self.radius = deep, omega, radius
        Rc = rad(zc)
        self.pan = []
        for p in range(6):
            P = swref.Panel(p, nel, ops, self.R, radius)
            d = {}
            X = lambda m: _expand(m)
            # volume points: (nev, nel, nel, n3, n2, n1)
            d["int"] = Met(_Sel(P.int, lambda a: a[None, :, :, None]), Rc[:, None, None, :, None, None], radius, H)
            # west-east interfaces: (nev, nel, nel+1, n3, n2)
            d["we"] = Met(_Sel(P.we, lambda a: a[None, :, :, None]), Rc[:, None, None, :, None], radius, H)
            d["sn"] = Met(_Sel(P.sn, lambda a: a[None, :, :, None]), Rc[:, None, None, :, None], radius, H)
            # horizontal interfaces: (nev+1, nel, nel, n2, n1)
            d["du"] = Met(_Sel(P.int, lambda a: a[None]), rad(zi)[:, None, None, None, None], radius, H)
            d["P"] = P
            d["gam"] = {k: v[None, :, :, None] for k, v in swref.christoffel(p, P.int.x1, P.int.x2, P.dx).items()}
            a1, a2 = cube.basis(p, P.int.x1, P.int.x2)
            d["a"] = ((a1 @ self.R.T)[None, :, :, None], (a2 @ self.R.T)[None, :, :, None])
            d["p"] = P.int.p[None, :, :, None]
            self.pan.append(d)
        self.Rc = Rc[:, None, None, :, None, None]
        V = np.polynomial.legendre.legvander(ops.x, ns - 1)
        D = np.eye(ns)
        D[-1, -1] = 0
        self.filt = V @ D @ np.linalg.inv(V)

    record = replay = None

    def frozen(self, Q0, Q):
        """Tendency of Q with the absolute velocities in the dissipation taken from Q0."""
        self.record = kept = []
        self.rhs(Q0)
        self.record, self.replay = None, iter(kept)
        r = self.rhs(Q)
        self.replay = None
        return r

    def trace(self, q, ax):
        """Traces of the five variables along an axis of q[k] (density-like ones through their logarithm)."""
        lo, hi = [], []
        for k in range(5):
            if k in (0, 4):
                a, b = self.ops.trace(np.log(q[k]), ax)
                lo.append(np.exp(a)), hi.append(np.exp(b))
            else:
                a, b = self.ops.trace(q[k], ax)
                lo.append(a), hi.append(b)
        return np.stack(lo), np.stack(hi)

    def rhs(self, Q):
        """Q (6, 5, nev, nel, nel, ns^3) -> tendency, and the size of the largest term of each variable."""
        nel, nev, n, ops = self.nel, self.nev, self.n, self.ops
        Q = np.asarray(Q).reshape(6, 5, nev, nel, nel, n, n, n)
        we = [self.trace(Q[p], 5) for p in range(6)]  # (5, nev, nel, nel, n3, n2)
        sn = [self.trace(Q[p], 4) for p in range(6)]  # (5, nev, nel, nel, n3, n1)
        out = np.empty_like(Q)
        frac = (np.arange(nel)[:, None] + (ops.x + 1)[None, :] / 2).ravel() / nel
        for p in range(6):
            d = self.pan[p]
            q = Q[p]
            Lw = np.empty((5, nev, nel, nel + 1, n, n))
            Rw = np.empty_like(Lw)
            Lw[:, :, :, 1:], Rw[:, :, :, :-1] = we[p][1], we[p][0]
            Ls = np.empty((5, nev, nel + 1, nel, n, n))
            Rs = np.empty_like(Ls)
            Ls[:, :, 1:], Rs[:, :, :-1] = sn[p][1], sn[p][0]
            for side in range(4):
                o, os_, rev = self.tiles.neighbour(p, side)
                if os_ == cube.SOUTH:
                    v = sn[o][0][:, :, 0]
                elif os_ == cube.NORTH:
                    v = sn[o][1][:, :, -1]
                elif os_ == cube.WEST:
                    v = we[o][0][:, :, :, 0]
                else:
                    v = we[o][1][:, :, :, -1]
                # (5, nev, nel, n3, n) -> (5, nev, n3, nel*n)
                v = np.moveaxis(v, 3, 2).reshape(5, nev, n, nel * n)
                a, b = self.tiles.edge_coords(o, os_, frac)
                vec = cube.vec_from_contra(o, a, b, v[1], v[2])
                if rev:
                    v, vec = v[..., ::-1], vec[..., ::-1, :]
                a, b = self.tiles.edge_coords(p, side, frac)
                u1, u2 = cube.contra_from_vec(p, a, b, vec)
                got = np.stack([v[0], u1, u2, v[3], v[4]]).reshape(5, nev, n, nel, n)
                got = np.moveaxis(got, 3, 2)
                if side == cube.SOUTH:
                    Ls[:, :, 0] = got
                elif side == cube.NORTH:
                    Rs[:, :, -1] = got
                elif side == cube.WEST:
                    Lw[:, :, :, 0] = got
                else:
                    Rw[:, :, :, -1] = got
            fw, _ = self.common(Lw, Rw, d["we"], 0)
            fs, _ = self.common(Ls, Rs, d["sn"], 1)
            lo, hi = self.trace(q, 3)  # (5, nev, nel, nel, n2, n1)
            Lz = np.concatenate([lo[:, :1], hi], 1)
            Rz = np.concatenate([lo, hi[:, -1:]], 1)
            Lz[3, 0] *= -1
            Rz[3, -1] *= -1
            fz, pz = self.common(Lz, Rz, d["du"], 2, walls=True)
            m = d["int"]
            sg, h = m.sg, m.h
            r = q[0]
            u = [q[k] / r for k in (1, 2, 3)]
            pr = pressure(q[4])
            res = np.zeros_like(q)
            for ax, (k, f, lo_, hi_) in enumerate(((0, fw, np.s_[:, :, :, :-1], np.s_[:, :, :, 1:]), (1, fs, np.s_[:, :, :-1], np.s_[:, :, 1:]),
                                                   (2, fz, np.s_[:, :-1], np.s_[:, 1:]))):
                F = sg * u[k] * q
                for i in range(2):
                    if (min(i, k), max(i, k)) in h:
                        F[1 + i] = F[1 + i] + sg * h[min(i, k), max(i, k)] * pr
                axis = {0: 6, 1: 5, 2: 4}[k]
                res -= ops.deriv(F, f[lo_], f[hi_], axis) / sg
            # vertical pressure force
            sh = np.broadcast_to(sg * h[2, 2], pr.shape)
            c = d["du"].sg * d["du"].h[2, 2]
            pL, pR = pz
            mean = 0.5 * c * (pL + pR)
            # element side values: lower interface seen from its upper element, upper interface from its lower element
            da = ops.deriv(sh, mean[:-1] / pR[:-1], mean[1:] / pL[1:], 3)
            db = ops.deriv(np.log(pr), np.log(pR[:-1]), np.log(pL[1:]), 3)
            res[3] -= (pr * da + pr * sh * db) / sg
            # metric terms
            G = d["gam"]
            for i in range(2):
                for a in range(2):
                    for b in range(2):
                        res[1 + i] -= G[i, a, b] * (r * u[a] * u[b] + h[min(a, b), max(a, b)] * pr)
            if self.deep:
                s = self.H / self.Rc
                for i in range(2):
                    res[1 + i] -= 2 * s * r * u[i] * u[2]
                # Gamma^3_ij = -g_ij / (R H) with g_ij the covariant metric
                det = h[0, 0] * h[1, 1] - h[0, 1] ** 2
                g = {(0, 0): h[1, 1] / det, (0, 1): -h[0, 1] / det, (1, 1): h[0, 0] / det}
                for a in range(2):
                    for b in range(2):
                        k = (min(a, b), max(a, b))
                        res[3] += g[k] / (self.Rc * self.H) * (r * u[a] * u[b] + h[k] * pr)
            # rotation
            a1, a2 = d["a"]
            dx2 = d["P"].dx / 2
            vec = (u[0][..., None] * a1 + u[1][..., None] * a2) * (self.Rc * dx2)[..., None] + (u[2] * self.H)[..., None] * d["p"]
            cor = 2 * self.omega * np.cross(np.array([0.0, 0.0, 1.0]), vec)
            b1, b2 = np.sum(a1 * cor, -1), np.sum(a2 * cor, -1)
            g11, g12, g22 = np.sum(a1 * a1, -1), np.sum(a1 * a2, -1), np.sum(a2 * a2, -1)
            det = g11 * g22 - g12**2
            res[1] -= r * (g22 * b1 - g12 * b2) / det / (self.Rc * dx2)
            res[2] -= r * (g11 * b2 - g12 * b1) / det / (self.Rc * dx2)
            res[3] -= r * np.sum(cor * d["p"], -1) / self.H
            # gravity
            fr = np.moveaxis(np.tensordot(self.filt, np.moveaxis(sg * r, 3, 0), axes=(1, 0)), 0, 3)
            res[3] -= GRAV / self.H * fr / sg
            out[p] = res
        return out.reshape(6, 5, nev, nel, nel, n**3)

    def common(self, L, R, m, k, walls=False):
        """Rusanov flux (advective part only for the vertical momentum) and the pressures on both sides."""
        pL, pR = pressure(L[4]), pressure(R[4])
        uL, uR = L[1 + k] / L[0], R[1 + k] / R[0]
        hk = m.h[k, k]
        aL, aR = np.abs(uL), np.abs(uR)
        if self.record is not None:  # keep the absolute velocities of this state ...
            self.record.append((aL, aR))
        elif self.replay is not None:  # ... to use them with another one
            aL, aR = next(self.replay)
        eig = np.maximum(aL + np.sqrt(hk * GAM * pL / L[0]), aR + np.sqrt(hk * GAM * pR / R[0]))
        F = 0.5 * m.sg * (uL * L + uR * R)
        D = 0.5 * eig * m.sg * (R - L)
        if walls:  # closed: no transport, and no dissipation of the tangential or vertical momentum
            F[:, 0] = 0
            F[:, -1] = 0
            D[:, 0] = 0
            D[:, -1] = 0
        F = F - D
        for i in range(2):
            key = (min(i, k), max(i, k))
            if key in m.h:
                F[1 + i] += 0.5 * m.sg * m.h[key] * (pL + pR)
        return F, (pL, pR)


def _expand(m):
    return m


class _Sel:
    def __init__(self, m, f):
        self.sg, self.h11, self.h12, self.h22 = f(m.sg), f(m.h11), f(m.h12), f(m.h22)
