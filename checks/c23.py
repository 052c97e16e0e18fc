"""C23: the initial state is the published test case, evaluated at every grid point, on any grid and process count."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one real simulation built from a generated configuration (test case, grid sizes, orders, rotations, lids, depth, process "
    "counts); its initial state and ground are recorded before any step and compared point by point, in physical quantities, with the "
    "harness's own evaluation of the published formulas at positions from its own 3-D geometry; winds over smooth terrain are converted "
    "both ways. Non-trivial: the state varies in space."
)
P0, RD, CP, G = 100000.0, 287.05, 1005.46, 9.80616
KAP = RD / CP


def worker(rec, spec):
    import numpy as np
    from mpi4py import MPI
    from vf import dfr, euler3, sims, sphere

    np.seterr(all="ignore")
    mon = MPI.COMM_WORLD.Dup()
    dbg = os.environ.get("VF_DEBUG")

    def close(what, a, b, tol, name, scale=None):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            rec.violation(f"{what}:shape", f"{what} has shape {a.shape} instead of {b.shape} for {name}")
            return
        rec.count("values_compared", int(b.size))
        s = np.max(np.abs(b)) if scale is None else scale
        d = np.abs(a - b)
        err = np.inf if not np.all(np.isfinite(a)) else float(np.max(d)) / s if s > 0 else float(np.max(d))
        if dbg:
            print("C23", what, name, err)
        if not err <= tol:
            w = tuple(int(x) for x in np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d, np.inf))), d.shape))
            rec.violation(what, f"{what} is wrong by {err:.2e} (relative; accepted {tol:.0e}) at {w} on process {mon.rank}: {a[w]!r} instead of {b[w]!r} for {name}")

    for idx, kw in enumerate(spec["configs"]):
        kw = dict(kw)
        case, ns = kw["case"], kw["ns"]
        name = " ".join(f"{k}={v}" for k, v in kw.items()) + f" np{mon.size}"
        rec.begin(name)
        sim = sims.make(**kw)
        c, g = sim.config, sim.geometry
        Q = np.array(sim.initial_Q)
        rec.case(name)
        if kw.get("cart"):
            rec.count("box_states")
            x, _ = dfr.nodes(ns)
            nx, nz, (x0, x1, z0, z1) = kw["nelx"], kw["nelz"], kw["domain"]
            X = x0 + (x1 - x0) / nx * (np.arange(nx)[:, None] + (x + 1)[None, :] / 2)
            Z = z0 + (z1 - z0) / nz * (np.arange(nz)[:, None] + (x + 1)[None, :] / 2)
            shp = (nz, nx, ns, ns)
            X, Z = np.broadcast_to(X[None, :, None, :], shp), np.broadcast_to(Z[:, None, :, None], shp)
            r = np.hypot(X - 500.0, Z - 260.0)
            th = 303.15 + np.where(r <= 50, 0.5, 0.5 * np.exp(-(((r - 50) / 100.0) ** 2)))
            ex = 1 - G / (CP * th) * Z
            rho = P0 / (RD * th) * ex ** ((CP - RD) / RD)
            want = np.stack([rho, 0 * rho, 0 * rho, rho * th]).reshape(4, nz, nx, ns * ns)
            for k, s in enumerate((1.0, 1.0, 1.0, 300.0)):
                close(f"box state {k}", Q[k], want[k], 1e-12, name, s)
            continue
        lam, phi, al = c.lambda0, c.phi0, c.alpha0
        nel = kw["nel"]
        if case <= 10:
            rec.count("shallow_water_states")
            a, om = sphere.RADIUS, sphere.OMEGA
            T = sphere.Tile(mon.size, mon.rank, nel, ns, lam, phi, al)
            p = T.p
            lon, sl = np.arctan2(p[..., 1], p[..., 0]), p[..., 2]
            lat, cl = np.arcsin(np.clip(sl, -1, 1)), np.hypot(p[..., 0], p[..., 1])
            east = np.stack([-np.sin(lon), np.cos(lon), 0 * lon], -1)
            north = np.stack([-sl * np.cos(lon), -sl * np.sin(lon), cl], -1)
            b = 0 * lat
            v = 0 * lat
            if case == 2:
                u0 = 2 * np.pi * a / (12 * 86400.0)
                h = (29400.0 - (a * om * u0 + u0**2 / 2) * sl**2) / G
                u = u0 * cl
            elif case == 5:
                dl = np.mod(lon + np.pi / 2 + np.pi, 2 * np.pi) - np.pi
                b = 2000.0 * (1 - np.minimum(np.pi / 9, np.hypot(dl, lat - np.pi / 6)) / (np.pi / 9))
                h = 5960.0 - (a * om * 20.0 + 200.0) * sl**2 / G - b
                u = 20.0 * cl
            else:
                K = w = 7.848e-6
                R = 4
                A = w / 2 * (2 * om + w) * cl**2 + K**2 / 4 * ((R + 1) * cl ** (2 * R + 2) + (2 * R * R - R - 2) * cl ** (2 * R) - 2 * R * R * cl ** (2 * R - 2))
                B = 2 * (om + w) * K / ((R + 1) * (R + 2)) * cl**R * (R * R + 2 * R + 2 - (R + 1) ** 2 * cl**2)
                C = K**2 / 4 * cl ** (2 * R) * ((R + 1) * cl**2 - (R + 2))
                h = 8000.0 + a * a / G * (A + B * np.cos(R * lon) + C * np.cos(2 * R * lon))
                u = a * w * cl + a * K * cl ** (R - 1) * (R * sl**2 - cl**2) * np.cos(R * lon)
                v = -a * K * R * cl ** (R - 1) * sl * np.sin(R * lon)
            close("height", Q[0], T.flat(h), 1e-11, name, 5000.0)
            vec = u[..., None] * east + v[..., None] * north
            q = Q.reshape((3,) + lat.shape)
            got = (q[1][..., None] * T.a1 + q[2][..., None] * T.a2) / q[0][..., None] * a * T.dx / 2
            close("wind", got, vec, 1e-11, name, 20.0)
            if case == 5:
                close("ground", sim.topography.hsurf, T.flat(b), 1e-10, name, 2000.0)
            elif sim.topography is not None:
                close("ground", sim.topography.hsurf, T.flat(b), 1e-10, name, 2000.0)
            # winds in physical units to components and back, arbitrary winds
            loc = np.random.default_rng([spec["seed"], idx, mon.rank])
            uu, vv = loc.uniform(-50, 50, (2,) + lat.shape)
            try:
                got = g.wind2contra(T.flat(uu), T.flat(vv))
                c1, c2 = T.contra((uu[..., None] * east + vv[..., None] * north) / a)
                sc = max(np.max(np.abs(c1)), np.max(np.abs(c2))) * 2 / T.dx
                pole = np.min(cl) < 1e-3
                if not pole:
                    close("wind to components", np.stack(got), np.stack([T.flat(c1), T.flat(c2)]) * 2 / T.dx, 1e-10, name, sc)
                    back = g.contra2wind(T.flat(c1) * 2 / T.dx, T.flat(c2) * 2 / T.dx)
                    close("components to wind", np.stack(back), np.stack([T.flat(uu), T.flat(vv)]), 1e-10, name, 50.0)
            except AttributeError:
                pass
            continue
        # three-dimensional cases
        rec.count("euler_states")
        nev, ztop, deep = kw["nev"], kw["ztop"], kw.get("depth") == "deep"
        scale = {21: 500.0, 22: 500.0, 31: 125.0, 77: 1.0}[case]
        a = sphere.RADIUS / scale
        om = 0.0 if case != 77 else sphere.OMEGA
        for what, x, y in (("planet radius", g.earth_radius, a), ("rotation rate", g.rotation_speed, om)):
            if not abs(x - y) <= 1e-12 * abs(y):
                rec.violation(what, f"{what} is {x} instead of {y} for {name}")
        flow = euler3.Flow(np.random.default_rng(1), a, ztop, deep, om)
        T = sphere.Tile(mon.size, mon.rank, nel, ns, lam, phi, al)
        dist = lambda p, l0: np.arctan2(np.linalg.norm(np.cross(p, [np.cos(l0), np.sin(l0), 0.0]), axis=-1), p @ np.array([np.cos(l0), np.sin(l0), 0.0]))
        b = np.zeros(T.p.shape[:-1])
        if case in (21, 22):
            r = a * dist(T.p, np.pi / 4)
            b = 250.0 * np.exp(-((r / 5000.0) ** 2)) * np.cos(np.pi * r / 4000.0) ** 2
        GR = euler3.Grid(mon.size, mon.rank, nel, nev, ns, flow, lam, phi, al, bottom=b)
        p, z = GR.p, GR.z
        s2 = p[..., 2] ** 2
        cl = np.hypot(p[..., 0], p[..., 1])
        lon = np.arctan2(p[..., 1], p[..., 0])
        east = np.stack([-np.sin(lon), np.cos(lon), 0 * lon], -1)
        if case in (21, 22):
            cs = 2.5e-4 if case == 22 else 0.0
            t = 300.0 * (1 - cs * 400.0 / G * s2)
            pr = 1e5 * np.exp(-400.0 / (2 * RD * 300.0) * s2 - G * z / (RD * t))
            rho, th = pr / (RD * t), t * (P0 / pr) ** KAP
            u = 20.0 * cl * np.sqrt(2 * 300.0 / t * cs * z + t / 300.0)
        elif case == 31:
            bg = G**2 / (1e-4 * CP)
            c2 = -2 * s2  # cos(2 lat) - 1
            ts = bg + (300.0 - bg) * np.exp(-(20.0 * 1e-4 / (4 * G**2)) * (20.0 + 2 * om * a) * c2)
            ps = 1e5 * np.exp(20.0 / (4 * bg * RD) * (20.0 + 2 * om * a) * c2) * (ts / 300.0) ** (1 / KAP)
            pr = ps * (bg / ts * np.exp(-1e-4 * z / G) + 1 - bg / ts) ** (1 / KAP)
            t = bg * (1 - np.exp(1e-4 * z / G)) + ts * np.exp(1e-4 * z / G)
            rho = pr / (RD * t)
            r = a * dist(p, 2 * np.pi / 3)
            th = t * (P0 / pr) ** KAP + 25e6 / (25e6 + r**2) * np.sin(2 * np.pi * z / 20000.0)
            u = 20.0 * cl
        else:
            H = RD * 300.0 / G
            r = 6371000.0 * dist(p, 0.0)
            rc = 6371000.0 / 3
            pr = P0 * np.exp(-z / H) + np.where(r > rc, 0.0, 50.0 * (1 + np.cos(np.pi * r / rc))) * np.sin(np.pi * z / 10000.0)
            rho, th, u = pr / (RD * 300.0), 300.0 * (P0 / pr) ** KAP, 0 * z
        q = Q.reshape((5,) + z.shape)
        close("density", q[0], rho, 1e-10, name)
        close("potential temperature", q[4] / q[0], th, 1e-10, name)
        R = flow.r(z)
        hv = (q[1][..., None] * GR.a1 + q[2][..., None] * GR.a2) / q[0][..., None] * R[..., None] * GR.T.dx / 2
        close("horizontal wind", hv, u[..., None] * east, 1e-10, name, 20.0)
        if np.max(np.abs(b)) < 1e-9:
            close("vertical wind", q[3] / q[0] * GR.deta / 2 * ztop, 0 * z, 1e-9, name, 1.0)
        # (the conversion used by the output files, decided by C22)
        wz = g.contra2wind_3d(Q[1] / Q[0], Q[2] / Q[0], Q[3] / Q[0], sim.metric)[2]
        if np.max(np.abs(wz)) > 1e-9 and not np.any(Q[3]):
            rec.violation("schar:wind-follows-ground", f"the initial vertical wind is up to {np.max(np.abs(wz)):.3g} m/s instead of 0 (the wind follows the ground) for {name}")
        else:
            close("vertical wind over the ground", wz, 0 * wz, 1e-9, name, 1.0)
        # winds over smooth terrain
        if "hill" in spec and ns >= 4:
            hill = spec["hill"]
            fl = euler3.Flow(np.random.default_rng([spec["seed"], idx]), a, ztop, deep, om, mountain=hill)
            euler3.set_terrain(sim, fl)
            GR = euler3.Grid(mon.size, mon.rank, nel, nev, ns, fl, lam, phi, al)
            loc = np.random.default_rng([spec["seed"], idx, mon.rank])
            uu, vv = loc.uniform(-50, 50, (2,) + GR.z.shape)
            slat = GR.p[..., 2]
            north = np.stack([-slat * np.cos(lon), -slat * np.sin(lon), cl], -1)
            cc = GR.components(uu[..., None] * east + vv[..., None] * north, 0 * uu)
            got = g.wind2contra(GR.flat(uu), GR.flat(vv), GR.flat(0 * uu), sim.metric)
            rec.count("terrain_conversions")
            tol = {4: 1e-4, 5: 1e-5, 6: 1e-6}[ns] * (4.0 / nel) ** (ns - 1)
            if np.min(cl) > 1e-3:
                for k in range(3):
                    rec.count("terrain_components")
                    if k == 2 and not np.any(got[2]):
                        rec.violation("schar:slope-ignored", f"a horizontal wind over sloping ground gets no vertical component for {name}")
                        continue
                    close(f"wind component {k} over terrain", got[k], GR.flat(cc[k]), 1e-10 if k < 2 else tol, name, np.max(np.abs(cc[k])))


def drive(chk):
    import numpy as np

    me = "checks/c23.py"
    r = np.random.default_rng([chk.seed, 23])

    def rot(d):
        return dict(d, **dict(zip(("lambda0", "phi0", "alpha0"), [round(float(v), 4) for v in r.uniform((-3, -0.78, -1.5), (3, 0.78, 1.5))])))

    def box():
        lo, lz = float(r.uniform(-500, 500)), float(r.uniform(0, 200))
        return dict(cart=True, case=2, nelx=int(r.integers(1, 9)), nelz=int(r.integers(1, 9)), ns=int(r.integers(2, 7)), dt=0.1, t_end=1.0,
                    domain=(round(lo, 2), round(lo + float(r.uniform(500, 2000)), 2), round(lz, 2), round(lz + float(r.uniform(500, 3000)), 2)))

    def configs(nel, many):
        out = [dict(case=cs, nel=n, ns=m) for cs in (2, 5, 6) for n, m in ((nel, 3), (nel, 4))]
        out += [rot(dict(case=cs, nel=nel, ns=int(r.integers(1, 8)))) for cs in (2, 5, 6) for _ in range(many)]
        for cs in (21, 22, 31, 77):
            for j in range(many):
                zt = float(r.uniform(22000, 34000)) if cs < 30 else float(r.uniform(8000, 15000))
                d = dict(case=cs, nel=nel, ns=int(r.integers(2, 6)), nev=int(r.integers(1, 4)), ztop=round(zt, 1), depth=["shallow", "deep"][int(r.integers(2))])
                if j == 1:
                    d["ns"] = int(r.integers(4, 6))
                out.append(rot(d) if j else d)
        return out

    chk.run_worker(me, dict(configs=[box() for _ in range(20 if not chk.thorough else 100)], label="box"), np=1, timeout=300)
    many = 6 if chk.thorough else 3
    chk.run_worker(me, dict(configs=configs(4, many), hill=700.0, label="np6"), np=6, timeout=900)
    chk.run_worker(me, dict(configs=configs(3, many) + configs(1, 2), label="np6-odd"), np=6, timeout=900)
    chk.run_worker(me, dict(configs=configs(4, 2 if not chk.thorough else 6), label="np24"), np=24, timeout=900)
    if chk.thorough:
        chk.run_worker(me, dict(configs=configs(6, 3), label="np54"), np=54, timeout=2000)
        chk.run_worker(me, dict(configs=configs(8, 4), hill=700.0, label="np6-fine"), np=6, timeout=2000)
    chk.require("shallow_water_states", 100)
    chk.require("euler_states", 100)
    chk.require("box_states", 20)
    chk.require("terrain_conversions", 6)


if __name__ == "__main__":
    driver.main("C23", RULE, drive, worker)
