"""C22: output files and printed statistics describe the state they were given, in physical units, at any process count."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one record of an output file or one printed statistics block written by a real simulation for one state (states of the "
    "run itself and arbitrary rough states), on 6 or 24 processes and rotated grids; the harness keeps every state handed to the output "
    "layer, opens the finished file with the netCDF library and recomputes every field (positions, surface height, zonal, meridional and "
    "vertical wind, vorticity, potential vorticity, density, potential temperature, pressure, elevation, time) and every global integral from "
    "its own geometry; box runs print extremes and means. Non-trivial: the state varies in space."
)


def worker(rec, spec):
    import contextlib, io, re
    import numpy as np
    from mpi4py import MPI
    from output.output_manager import OutputManager
    from vf import cube, dfr, euler3, glob, sims, sphere

    np.seterr(all="ignore")
    mon = MPI.COMM_WORLD.Dup()
    dbg = os.environ.get("VF_DEBUG")
    log = []
    inner = OutputManager.step

    def step(self, Q, step_id):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            kept = np.array(Q, copy=True)
            r = inner(self, Q, step_id)
        log.append((int(step_id), kept, buf.getvalue()))
        return r

    OutputManager.step = step

    def close(what, a, b, tol, name, scale=None):
        """Largest difference relative to the largest value."""
        a, b = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan), np.asarray(b)
        rec.count("values_compared", int(b.size))
        if a.shape != b.shape:
            rec.violation(f"{what}:shape", f"{what} has shape {a.shape} instead of {b.shape} for {name}")
            return
        s = np.max(np.abs(b)) if scale is None else scale
        d = np.abs(a - b)
        err = np.inf if not np.all(np.isfinite(a)) else float(np.max(d)) / s if s > 0 else float(np.max(d))
        if dbg:
            print("C22", what, name, err)
        if not err <= tol:
            w = tuple(int(x) for x in np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d, np.inf))), d.shape))
            rec.violation(what, f"{what} is wrong by {err:.2e} (relative; accepted {tol:.0e}) at (panel, ..) {w}: {a[w]!r} instead of {b[w]!r} for {name}")

    def panel2(a, n):
        """(6, nel, nel, ns*ns) -> (6, rows, columns)"""
        ne = a.shape[1]
        return a.reshape(6, ne, ne, n, n).transpose(0, 1, 3, 2, 4).reshape(6, ne * n, ne * n)

    def panel3(a, n):
        nv, ne = a.shape[1:3]
        return a.reshape(6, nv, ne, ne, n, n, n).transpose(0, 1, 4, 2, 5, 3, 6).reshape(6, nv * n, ne * n, ne * n)

    rng = np.random.default_rng([spec["seed"], 22, mon.size])
    for idx, kw in enumerate(spec.get("cart", [])):
        rec.begin(f"box statistics {kw}")
        del log[:]
        sim = sims.make(stat_freq=1, output_dir=os.path.join(spec["out"], f"c{idx}"), **kw)
        for k in range(6):
            Q = np.array(sim.initial_Q) * (1 + [0.02, 0.1, 0.3][k % 3] * rng.uniform(-1, 1, sim.initial_Q.shape))
            Q[1:3] = Q[0] * rng.uniform(-40, 40, Q[1:3].shape) * [1, 1e-3][k % 2]
            sim.output.step(Q, k + 1)
        for sid, Q, txt in log:
            rec.case(f"box {idx} {sid}")
            rec.count("statistics_checked")
            rows = {m[0]: [float(v) for v in m[1:]] for m in re.findall(r"^\s*(\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s*$", txt, re.M) if m[1][-1].isdigit()}
            for sym, fld in zip(("\u03c1", "u", "w", "\u03b8"), (Q[0], Q[1] / Q[0], Q[2] / Q[0], Q[3] / Q[0])):
                want = [fld.min(), fld.max(), fld.mean()]
                got = rows.get(sym)
                tol = 0.006 * np.maximum(np.abs(want), 1e-300) + 1e-12 * np.max(np.abs(fld))
                if got is None or np.any(np.abs(np.array(got) - want) > tol):
                    rec.violation(f"box statistics {sym}", f"printed minimum, maximum and mean of {sym} are {got} instead of {want} for step {sid} of {kw}")
    for idx, kw in enumerate(spec["configs"]):
        kw = dict(kw)
        hill = kw.pop("hill", 0.0)
        case, nel, ns, nev = kw["case"], kw["nel"], kw["ns"], kw.get("nev", 1)
        out = os.path.join(spec["out"], f"o{mon.size}_{idx}")
        base = f"res{idx}"
        name = f"case{case} nel{nel} ns{ns} {'hill' if hill else ''} np{mon.size} {kw.get('lambda0', 0)},{kw.get('phi0', 0)},{kw.get('alpha0', 0)} {kw.get('depth', '')}"
        rec.begin(f"output {name}")
        del log[:]
        steps = 3
        dt = kw.pop("dt")
        t_end = dt * (steps - 0.5)
        sim = sims.make(output_freq=1, stat_freq=1, output_dir=out, base_output_file=base, dt=dt, t_end=t_end, **kw)
        c, g = sim.config, sim.geometry
        lam, phi, al = c.lambda0, c.phi0, c.alpha0
        flow = None
        if case > 12 and hill:
            flow = euler3.Flow(np.random.default_rng([spec["seed"], idx]), g.earth_radius, c.ztop, kw.get("depth") == "deep", g.rotation_speed, mountain=hill)
            euler3.set_terrain(sim, flow)
            del log[:]
            first = 1
        else:
            first = 0
        with contextlib.redirect_stdout(io.StringIO()):
            for k in range(steps):
                if flow is None:
                    sim.step()
                Q = glob.random_like(sim, mon, [spec["seed"], idx, k], [0.02, 0.1, 0.001][k])
                if case > 12:
                    for v, s in ((1, 3e-5), (2, 3e-5), (3, 1e-3)):
                        Q[v] += Q[0] * s * np.random.default_rng([spec["seed"], idx, k, v, mon.rank]).uniform(-1, 1, Q[0].shape)
                sim.output.step(Q, k + 100)
            sim.output.finalize(0.0)
        mon.Barrier()
        ids = [x[0] for x in log]
        states = [glob.gather(mon, x[1], glob.q_axis(sim)) for x in log]
        texts = [x[2] for x in log]
        if mon.rank != 0:
            continue
        from netCDF4 import Dataset

        T = [sphere.Tile(6, p, nel, ns, lam, phi, al) for p in range(6)]
        P = np.stack([t.p for t in T])  # (6, nel, nel, n, n, 3)
        x, wq = dfr.nodes(ns)
        dx = np.pi / 2 / nel
        lon, lat = np.arctan2(P[..., 1], P[..., 0]), np.arcsin(P[..., 2])
        east = np.stack([-np.sin(lon), np.cos(lon), 0 * lon], -1)
        north = np.stack([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)], -1)
        a1, a2 = np.stack([t.a1 for t in T]), np.stack([t.a2 for t in T])
        a = g.earth_radius
        path = os.path.join(out, base + ".nc")
        try:
            f = Dataset(path)
        except OSError as e:
            rec.violation("file", f"the output file cannot be opened ({e}) for {name}")
            continue
        with f:
            # grid
            pos = lambda lo, la: euler3.lonlat_points(np.radians(lo), np.radians(la))
            want = np.stack([panel2(P[..., k].reshape(6, nel, nel, ns * ns), ns) for k in range(3)], -1)
            got = pos(np.ma.filled(f["lons"][:], np.nan), np.ma.filled(f["lats"][:], np.nan))
            close("position", got, want, 1e-11, name)
            line = (-np.pi / 4 + dx * np.arange(nel)[:, None] + dx * (x + 1)[None, :] / 2).ravel()
            for v in ("Xdim", "Ydim"):
                close("axis", f[v][:], line, 1e-12, name + " " + v)
            if list(f["npe"][:]) != list(range(6)):
                rec.violation("panels", f"panel numbers in the file are {list(f['npe'][:])} for {name}")
            expect_t = [min(i * dt, t_end) for i in ids]
            if first:  # (the record of the initial state was written before the terrain was installed)
                expect_t = [0.0] + expect_t
            times = np.ma.filled(np.ma.asarray(f["time"][:], dtype=float), np.nan)
            if len(times) != len(expect_t) or not np.allclose(times, expect_t, rtol=1e-12, atol=0):
                rec.violation("time", f"times in the file are {list(times)} instead of {expect_t} for {name}")
                continue
            if case > 12:
                deep = kw.get("depth") == "deep"
                eta = (np.arange(nev)[:, None] + (x + 1)[None, :] / 2) / nev
                b = np.zeros(lon.shape)
                if case == 21 and not hill:
                    rr = a * np.arccos(np.clip(np.sin(lat) * 0.0 + np.cos(lat) * np.cos(lon - np.pi / 4), -1, 1))
                    b = 250.0 * np.exp(-((rr / 5000.0) ** 2)) * np.cos(np.pi * rr / 4000.0) ** 2
                zt = 30000.0 if case in (21, 22) else 10000.0
                zt = c.ztop
                B = b[:, None, :, :, None]  # (6, 1, nel, nel, 1, n, n)
                E = eta[None, :, None, None, :, None, None]
                full = (6, nev, nel, nel, ns, ns, ns)
                z = np.broadcast_to(B + (zt - B) * E, full)
                flat = lambda q: panel3(np.ascontiguousarray(np.broadcast_to(q, full)).reshape(6, nev, nel, nel, ns**3), ns)
                close("elevation", f["elev"][:], flat(z), 1e-10, name)
                close("ground", f["topo"][:], panel2(b.reshape(6, nel, nel, ns * ns), ns), 1e-10, name, scale=max(1.0, np.max(np.abs(b))))
                if flow is not None:
                    b = flow.bottom(P)
                    B = b[:, None, :, :, None]
                    z = np.broadcast_to(B + (zt - B) * E, full)
                R = a + z if deep else np.full(full, a)
            for j, (sid, GQ) in enumerate(zip(ids, states)):
                j += first
                nm = f"{name} record {j}"
                rec.case(nm)
                rec.count("records_checked")
                if case <= 12:
                    h, m1, m2 = (GQ[:, k].reshape(lon.shape) for k in range(3))
                    s2 = lambda q: panel2(q.reshape(6, nel, nel, ns * ns), ns)
                    b = np.zeros(lon.shape)
                    if case == 5:
                        dl = np.mod(lon + np.pi / 2 + np.pi, 2 * np.pi) - np.pi
                        b = 2000.0 * (1 - np.minimum(np.pi / 9, np.hypot(dl, lat - np.pi / 6)) / (np.pi / 9))
                    close("height", f["h"][j], s2(h + b), 1e-11, nm)
                    u1, u2 = m1 / h * dx / 2, m2 / h * dx / 2
                    vec = a * (u1[..., None] * a1 + u2[..., None] * a2)
                    sp = float(np.max(np.linalg.norm(vec, axis=-1)))
                    close("zonal wind", f["U"][j], s2(np.sum(vec * east, -1)), 1e-10, nm, sp)
                    close("meridional wind", f["V"][j], s2(np.sum(vec * north, -1)), 1e-10, nm, sp)
                    D = dfr.diff_matrix(x)
                    c1, c2 = np.sum(vec * a1, -1) * a, np.sum(vec * a2, -1) * a  # covariant, per radian
                    sg = a * a * np.sqrt(np.stack([t.det for t in T]))
                    vort = (np.einsum("ij,...j->...i", D, c2) - np.einsum("ij,...jk->...ik", D, c1)) * 2 / dx / sg
                    close("vorticity", f["RV"][j], s2(vort), 1e-9, nm)
                    pv = (vort + 2 * sphere.OMEGA * P[..., 2]) / h
                    close("potential vorticity", f["PV"][j], s2(pv), 1e-9, nm)
                    # printed statistics
                    W = sg * (dx / 2) ** 2 * wq[:, None] * wq[None, :]
                    I = lambda q: float(np.sum(W * q))
                    en = 0.5 * h * np.sum(vec * vec, -1) + 0.5 * sphere.GRAV * ((h + b) ** 2 - b**2)
                    ints = {"mass": I(h), "energy": I(en), "enstrophy": I(h * pv**2 / 2)}
                    if j == first:
                        start = ints
                    txt = texts[j - first]
                    num = lambda pat: [float(v) for v in re.findall(pat + r"\s*=\s*([-+0-9.eE]+|nan|inf)", txt)]
                    rec.count("statistics_checked")
                    for q, val in ints.items():
                        if j == first:
                            v = num(f"Integral of {q}")
                            if len(v) != 1 or not abs(v[0] - val) <= 1e-9 * abs(val):
                                rec.violation(f"integral of {q}", f"printed integral of {q} is {v} instead of {val} for {nm}")
                        v = num(f"normalized error for {q}")
                        exp = (val - start[q]) / start[q]
                        if len(v) != 1 or not abs(v[0] - exp) <= 1e-9 * max(1e-3, abs(exp)):
                            rec.violation(f"change of {q}", f"printed relative change of {q} is {v} instead of {exp} for {nm}")
                    if case == 2:
                        u0 = 2 * np.pi * a / (12 * 86400)
                        h0 = (29400.0 - (a * sphere.OMEGA * u0 + u0**2 / 2) * np.sin(lat) ** 2) / sphere.GRAV
                        err = {"l1": I(np.abs(h - h0)) / I(np.abs(h0)), "l2": np.sqrt(I((h - h0) ** 2) / I(h0**2)), "linf": np.max(np.abs(h - h0)) / np.max(h0)}
                        for q, val in err.items():
                            v = num(rf"\b{q}")
                            if len(v) != 1 or not abs(v[0] - val) <= 1e-12 + 1e-8 * val:
                                rec.violation(f"error norm {q}", f"printed {q} is {v} instead of {val} for {nm}")
                else:
                    rho, m1, m2, m3, rt = (GQ[:, k].reshape(full) for k in range(5))
                    close("density", f["rho"][j], flat(rho), 1e-12, nm)
                    close("potential temperature", f["theta"][j], flat(rt / rho), 1e-12, nm)
                    close("pressure", f["P"][j], flat(1e5 * (287.05 * rt / 1e5) ** (1005.46 / (1005.46 - 287.05))), 1e-11, nm)
                    ex = lambda v: np.broadcast_to(v[:, None, :, :, None], full + (3,))
                    hv = R[..., None] * ((m1 / rho)[..., None] * ex(a1) + (m2 / rho)[..., None] * ex(a2)) * dx / 2
                    sp = float(np.max(np.linalg.norm(hv, axis=-1)))
                    close("zonal wind", f["U"][j], flat(np.sum(hv * ex(east), -1)), 1e-10, nm, sp)
                    close("meridional wind", f["V"][j], flat(np.sum(hv * ex(north), -1)), 1e-10, nm, sp)
                    w = m3 / rho / nev / 2 * (zt - np.broadcast_to(B, full))
                    tol, ws = 1e-10, None
                    if flow is not None:
                        sl = np.sum(hv * flow.slope(ex(P)), -1) / R * (1 - np.broadcast_to(E, full))
                        w = w + sl
                        ws = float(np.max(np.abs(sl)))
                        tol = spec["slope_tol"].get(str(ns), 0.01)
                    if case != 21 or flow is not None:
                        close("vertical wind" + (" over terrain" if flow is not None else ""), f["W"][j], flat(w), tol, nm, ws)


def drive(chk):
    me = "checks/c22.py"
    import numpy as np

    r = np.random.default_rng([chk.seed, 22])
    ang = lambda: [round(float(v), 4) for v in r.uniform(-0.7, 0.7, 3)]

    def rot(d, on=True):
        return dict(d, **dict(zip(("lambda0", "phi0", "alpha0"), ang()))) if on else d

    def configs(nel):
        out = [rot(dict(case=5, nel=nel, ns=3, dt=300.0)), rot(dict(case=2, nel=nel, ns=4, dt=200.0), False), rot(dict(case=6, nel=nel, ns=3, dt=300.0)),
               rot(dict(case=31, nel=nel, ns=3, nev=2, dt=0.5)), rot(dict(case=21, nel=nel, ns=2, nev=3, dt=0.1, ztop=30000.0)),
               rot(dict(case=31, nel=nel, ns=4, nev=2, dt=0.5, hill=600.0, depth="deep")), rot(dict(case=77, nel=nel, ns=3, nev=2, dt=0.2))]
        if chk.thorough:
            out += [rot(dict(case=c, nel=nel, ns=n, dt=100.0)) for c in (2, 5, 6) for n in (1, 2, 5, 6)]
            out += [rot(dict(case=31, nel=nel, ns=n, nev=3, dt=0.2, depth=d)) for n in (2, 4, 5) for d in ("shallow", "deep")]
            out += [rot(dict(case=31, nel=nel, ns=4, nev=2, dt=0.2, depth=d, hill=h)) for d in ("shallow", "deep") for h in (300.0, 1500.0)]
        return out

    cart = [dict(cart=True, case=2, nelx=int(r.integers(1, 6)), nelz=int(r.integers(1, 6)), ns=int(r.integers(2, 6)), dt=0.1, t_end=1.0) for _ in range(4)]
    chk.run_worker(me, dict(configs=[], cart=cart, label="box"), np=1, timeout=200)
    spec = {"slope_tol": {"4": 1e-3}}
    chk.run_worker(me, dict(spec, configs=configs(4) + [configs(1)[i] for i in (0, 2, 3, 6)], label="np6"), np=6, timeout=300 if not chk.thorough else 2400)
    if chk.thorough:
        chk.run_worker(me, dict(spec, configs=configs(6), label="np24"), np=24, timeout=2400)
        chk.run_worker(me, dict(spec, configs=configs(6)[:7], label="np54"), np=54, timeout=2400)
    else:
        chk.run_worker(me, dict(spec, configs=[configs(4)[i] for i in (0, 1, 3)], label="np24"), np=24, timeout=300)
    chk.require("records_checked", 40)
    chk.require("statistics_checked", 15)


if __name__ == "__main__":
    driver.main("C22", RULE, drive, worker)
