"""C12: three-dimensional compressible tendencies on the cubed sphere are those of the governing equations."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one evaluation of the real tendencies: of a smooth random flow over flat ground or smooth terrain (compared with the "
    "exact tendency obtained by vector calculus in space) or of an arbitrary rough state over flat ground (compared point by point "
    "with an independent global model of the scheme). Non-trivial: the tendency is not zero / the state has jumps at the interfaces."
)
# accepted relative error of smooth tendencies on 4 elements: (points) -> (density-like, horizontal momentum, vertical momentum)
SMOOTH = {4: (0.04, 0.25, 0.015), 5: (2.5e-3, 0.2, 1e-3), 6: (4e-4, 3e-3, 4e-5)}
# momentum of rough states: the geometric terms of the code are themselves discrete
ROUGH = {2: 2e-2, 3: 3e-4, 4: 2e-5, 5: 1e-5, 6: 1e-6}


def damping(case, p, z, ztop):
    """Rate of the layer that damps towards the reference wind above 20 km in the mountain-wave cases, and that wind."""
    import numpy as np

    lat = np.arcsin(np.clip(p[..., 2], -1, 1))
    d = np.where(z > 20000.0, np.sin(np.pi / 2 * (z - 20000.0) / (ztop - 20000.0)) ** 2, 0.0) / 25.0
    cs = 2.5e-4 if case == 22 else 0.0
    t = 1 - cs * 400.0 / 9.80616 * np.sin(lat) ** 2
    u = 20.0 * np.cos(lat) * np.sqrt(2 / t * cs * z + t)
    e = np.stack([-p[..., 1], p[..., 0], 0 * lat], -1) / np.maximum(np.cos(lat), 1e-30)[..., None]
    return d, u[..., None] * e


def worker(rec, spec):
    import numpy as np
    from mpi4py import MPI
    from vf import euler3, eulref, glob, sims

    np.seterr(all="ignore")
    mon = MPI.COMM_WORLD.Dup()
    dbg = os.environ.get("VF_DEBUG")
    rng = np.random.default_rng([spec["seed"], 12, mon.size])
    for idx, (case, depth, nel, nev, ns, rot, ztop, mount) in enumerate(spec["configs"]):
        lam, phi, al = rot
        rec.begin(f"setup {case} {depth} {nel} {nev} {ns} {rot}")
        sim = sims.make(case=case, nel=nel, nev=nev, ns=ns, depth=depth, lambda0=lam, phi0=phi, alpha0=al, ztop=ztop)
        c, g = sim.config, sim.geometry
        lam, phi, al = c.lambda0, c.phi0, c.alpha0
        name = f"case{case} {depth} nel{nel}x{nev} ns{ns} rot{tuple(round(x, 3) for x in (lam, phi, al))} ztop{ztop} hill{mount} np{mon.size}"
        radius, omega = g.earth_radius, g.rotation_speed
        deep = depth == "deep"

        # 1. arbitrary states over flat ground (before any terrain is installed)
        for rep in range(spec["rough"] if case not in (21, 22) else 0):
            rec.begin(f"rough {name} {rep}")
            amp = [0.02, 0.002, 0.1][rep % 3]
            Q = glob.random_like(sim, mon, [spec["seed"], idx, rep], amp)
            loc = np.random.default_rng([spec["seed"], idx, rep, mon.rank])
            speed = [60.0, 400.0, 5.0][rep % 3]
            s = Q[0] * 2 / (np.pi / 2 / nel) / radius
            Q[1] = s * speed * loc.uniform(-1, 1, s.shape)
            Q[2] = s * speed * loc.uniform(-1, 1, s.shape)
            Q[3] = Q[0] * [10.0, 500.0, 0.1][rep % 3] * 2 * nev / ztop * loc.uniform(-1, 1, s.shape)
            before = Q.copy()
            r = sim.rhs.full(Q)
            if not np.array_equal(before, Q):
                rec.violation("input-modified", f"the tendency computation modified its input for {name}")
            if r.shape != Q.shape or r.dtype != Q.dtype:
                rec.violation("result-type", f"result {r.shape}/{r.dtype} for input {Q.shape}/{Q.dtype}")
                continue
            GQ, Gr = glob.gather(mon, before, 2), glob.gather(mon, r, 2)
            if mon.rank == 0:
                ref = eulref.Reference(nel, nev, ns, radius, ztop, deep, omega, lam, phi, al)
                R = ref.rhs(GQ)
                rec.case(f"rough:{name}:{rep}")
                rec.count("rough_states")
                for k in range(5):
                    a, b = Gr[:, k], R[:, k]
                    err = float(np.max(np.abs(a - b)) / np.max(np.abs(b))) if np.all(np.isfinite(a)) else np.inf
                    tol = 1e-10 if k in (0, 4) else ROUGH[ns] * (4.0 / nel) ** (ns - 1)
                    rec.count("points_compared", a.size)
                    if dbg:
                        print("rough", name, rep, k, err, tol)
                    if not err <= tol:
                        w = tuple(int(x) for x in np.unravel_index(int(np.argmax(np.abs(a - b))), a.shape))
                        rec.violation(f"scheme:var{k}", f"tendency of variable {k} differs from the governing scheme by {err:.2e} (accepted "
                                      f"{tol:.0e}) at (panel, level, row, col, point) {w} for {name}, state {rep}")

        # 2. smooth flows against exact tendencies
        if ns in SMOOTH:
            for rep in range(spec["smooth"]):
                seed = int(rng.integers(1 << 30))
                rec.begin(f"smooth {name} {seed}")
                hill = mount if rep % 2 == 0 or case in (21, 22) else 0.0
                if rep % 2 and mount and hill == 0.0:  # flat ground again needs a fresh grid
                    sim = sims.make(case=case, nel=nel, nev=nev, ns=ns, depth=depth, lambda0=rot[0], phi0=rot[1], alpha0=rot[2], ztop=ztop)
                fl = euler3.Flow(np.random.default_rng(seed), radius, ztop, deep, omega, wind=[60.0, 25.0][rep % 2], vert=2.0, mountain=hill)
                if hill:
                    euler3.set_terrain(sim, fl)
                G = euler3.Grid(mon.size, mon.rank, nel, nev, ns, fl, lam, phi, al)
                r = sim.rhs.full(G.state())
                t = G.tendency()
                if case in (21, 22):
                    d, ref = damping(case, G.p, G.z, ztop)
                    rd = (fl.rho(G.p, G.z) * d)
                    m = list(G.components(rd[..., None] * (fl.hor(G.p, G.z) - ref), rd * fl.w(G.p, G.z)))
                    # the reference wind blows along the ground surfaces or exactly horizontally (see C23)
                    along = rd * G.components(fl.hor(G.p, G.z), fl.w(G.p, G.z))[2]
                    hi = G.flat(d) > 0.5 / 25
                    for k in range(3):
                        e = []
                        for mk in (m[k], along if k == 2 else m[k]):
                            mk = G.flat(mk)
                            e += [np.max(np.abs(r[1 + k] - t[1 + k] + mk)[hi]) if np.any(hi) else 0.0, np.max(np.abs(mk))]
                        e = np.where(np.isfinite(e), e, np.inf)
                        mon.Allreduce(MPI.IN_PLACE, e, MPI.MAX)
                        use = 0 if e[0] <= e[2] else 2
                        t[1 + k] -= G.flat(m[k] if use == 0 else along)
                        if mon.rank == 0:
                            rec.count("damped_flows")
                            if dbg:
                                print("damping", name, k, e[0] / e[1], e[2] / e[3])
                            if not e[use] <= (1e-3, 1e-3, 1e-2)[k] * e[use + 1]:
                                rec.violation(f"damping:{k}", f"damping of wind component {k} above 20 km is off by {e[use] / e[use + 1]:.1e} (relative) for {name}, flow seed {seed}")
                err = np.array([np.max(np.abs(r[k] - t[k])) if np.all(np.isfinite(r[k])) else np.inf for k in range(5)])
                mag = np.array([np.max(np.abs(t[k])) for k in range(5)])
                mon.Allreduce(MPI.IN_PLACE, err, MPI.MAX)
                mon.Allreduce(MPI.IN_PLACE, mag, MPI.MAX)
                mag[1] = mag[2] = max(mag[1], mag[2])
                if mon.rank == 0:
                    rec.case(f"smooth:{name}:{seed}")
                    rec.count("smooth_terrain" if hill else "smooth_flat")
                    rel = err / mag
                    f = (4.0 / nel) ** (ns - 1) * (10.0 if nev == 1 else 1.0)
                    lim = [SMOOTH[ns][i] * f for i in (0, 1, 1, 2, 0)]
                    if dbg:
                        print("smooth", name, hill, rel, lim)
                    for k in range(5):
                        if not rel[k] <= lim[k]:
                            rec.violation(f"smooth:var{k}", f"tendency of variable {k} of a smooth flow is off by {rel[k]:.2e} (relative, accepted "
                                          f"{lim[k]:.1e}) for {name}, flow seed {seed}, hill {hill}", {"seed": seed})
        if mon.rank == 0:
            rec.sample({"config": name})


def drive(chk):
    import random

    rnd = random.Random(chk.seed)

    def rot():
        return (round(rnd.uniform(-1.5, 1.5), 3), round(rnd.uniform(-0.75, 0.75), 3), round(rnd.uniform(-1.5, 1.5), 3))

    zt = lambda: round(rnd.uniform(8000, 15000), 1)
    z = (0.0, 0.0, 0.0)
    quick = [(31, "shallow", 4, 2, 6, z, 10000.0, 1000.0), (31, "deep", 4, 2, 6, rot(), zt(), 1500.0), (77, "deep", 4, 2, 6, rot(), zt(), 1200.0),
             (77, "shallow", 4, 2, 6, rot(), zt(), 800.0), (77, "shallow", 4, 3, 5, rot(), zt(), 800.0), (31, "shallow", 3, 2, 3, rot(), zt(), 0.0), (77, "deep", 2, 3, 4, rot(), zt(), 0.0),
             (31, "deep", 2, 1, 2, rot(), zt(), 0.0), (77, "deep", 1, 2, 4, rot(), zt(), 0.0), (21, rnd.choice(["shallow", "deep"]), 4, 4, 6, rot(), zt() + 17000.0, 500.0),
             (22, rnd.choice(["shallow", "deep"]), 4, 4, 6, rot(), zt() + 17000.0, 500.0)]
    chk.run_worker("checks/c12.py", {"configs": quick, "smooth": 2, "rough": 3, "label": "np6"}, np=6, timeout=300)
    chk.run_worker("checks/c12.py", {"configs": [(31, "deep", 4, 2, 5, rot(), zt(), 1000.0), (77, "shallow", 4, 2, 3, rot(), zt(), 0.0)],
                                     "smooth": 2, "rough": 2, "label": "np24"}, np=24, timeout=300)
    if chk.thorough:
        more = [(cs, d, n, v, s, rot(), zt(), rnd.choice([0.0, 1500.0])) for cs in (31, 77) for d in ("shallow", "deep")
                for n, v, s in ((4, 2, 4), (4, 2, 6), (3, 3, 5), (2, 2, 6), (6, 2, 3), (6, 3, 4), (4, 1, 5))]
        chk.run_worker("checks/c12.py", {"configs": more, "smooth": 4, "rough": 6, "label": "np6-more"}, np=6, timeout=3500)
        chk.run_worker("checks/c12.py", {"configs": [(31, "deep", 6, 2, 4, rot(), zt(), 1000.0), (77, "shallow", 6, 2, 3, rot(), zt(), 0.0)],
                                         "smooth": 2, "rough": 2, "label": "np54"}, np=54, timeout=1500)
    chk.require("rough_states", 15)
    chk.require("smooth_terrain", 3)
    chk.require("smooth_flat", 3)
    chk.require("damped_flows", 6)


if __name__ == "__main__":
    driver.main("C12", RULE, drive, worker)
