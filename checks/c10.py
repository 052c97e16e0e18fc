"""C10: on the sphere, mass and potential temperature content are conserved by the tendencies and by whole runs."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one tendency evaluation of an arbitrary state (its global integral of mass and, in three dimensions, of potential "
    "temperature must vanish) or one time step of a real run (the integrals must not move). Integrals use the harness's own area and "
    "volume weights. Non-trivial: the integrand itself is not zero."
)


def weights(mon, sim, deep):
    """Volume (area) element at every point of this tile, from the harness's own geometry."""
    import numpy as np
    from vf import dfr, sphere

    c, g = sim.config, sim.geometry
    T = sphere.Tile(mon.size, mon.rank, c._vf_nel, c.num_solpts, c.lambda0, c.phi0, c.alpha0)
    w = T.w
    area = np.sqrt(T.det) * w[:, None] * w[None, :] * (T.dx / 2) ** 2
    if sim.initial_Q.shape[0] == 3:
        return T.flat(area)
    nev, ns = c.num_elements_vertical, c.num_solpts
    x, _ = dfr.nodes(ns)
    eta = (np.arange(nev)[:, None] + (x + 1)[None, :] / 2) / nev
    b = c._vf_bottom(T.p) if c._vf_bottom is not None else 0 * T.p[..., 0]
    z = b[None, :, :, None] + (c.ztop - b)[None, :, :, None] * eta[:, None, None, :, None, None]
    V = area[None, :, :, None] * ((c.ztop - b) / nev / 2)[None, :, :, None] * w[None, None, None, :, None, None] * np.ones_like(z)
    if deep:
        V = V * ((g.earth_radius + z) / g.earth_radius) ** 2
    return V.reshape(z.shape[:3] + (ns**3,))


def worker(rec, spec):
    import numpy as np
    from mpi4py import MPI
    from vf import euler3, glob, sims

    np.seterr(all="ignore")
    mon = MPI.COMM_WORLD.Dup()
    dbg = os.environ.get("VF_DEBUG")

    def total(W, f):
        parts = mon.allgather((float(np.sum(W * f)), float(np.sum(W * np.abs(f)))))
        return sum(p[0] for p in parts), sum(p[1] for p in parts)

    for idx, cf in enumerate(spec["configs"]):
        cf = dict(cf)
        hill, steps, label = cf.pop("hill", 0.0), cf.pop("steps", 0), None
        deep = cf.get("depth") == "deep"
        name = " ".join(f"{k}={v}" for k, v in cf.items()) + f" hill={hill} np={mon.size}"
        rec.begin(name)
        sim = sims.make(**cf)
        sim.config._vf_nel, sim.config._vf_bottom = cf["nel"], None
        if hill:
            fl = euler3.Flow(np.random.default_rng([spec["seed"], idx]), sim.geometry.earth_radius, sim.config.ztop, deep, 0.0, mountain=hill)
            euler3.set_terrain(sim, fl)
            sim.config._vf_bottom = fl.bottom
        W = weights(mon, sim, deep)
        inv = (0,) if sim.initial_Q.shape[0] == 3 else (0, 4)
        for rep in range(spec["states"]):
            rec.begin(f"{name} state {rep}")
            amp = [0.02, 0.15, 0.001][rep % 3]
            cplx = rep % 3 == 1
            Q = glob.random_like(sim, mon, [spec["seed"], idx, rep], amp, cplx)
            r = sim.rhs.full(Q)
            for part, pname in ((np.real, ""),) + (((np.imag, "imag:"),) if cplx else ()):
                for k in inv:
                    t, s = total(W, part(r[k]))
                    ok = np.isfinite(t) and abs(t) <= 1e-12 * s
                    if mon.rank == 0:
                        rec.count("tendency_integrals")
                        rec.case(f"{name}:{rep}:{pname}{k}", s > 0)
                        if dbg:
                            print("integral", name, rep, pname, k, t / s)
                        if not ok:
                            rec.violation(f"tendency:{pname}var{k}", f"global integral of the tendency of variable {k} is {t:.3e} "
                                          f"(sum of magnitudes {s:.3e}): {name}, state {rep}")
        if steps:
            rec.begin(f"{name} run")
            Q = np.array(sim.initial_Q)
            rng = np.random.default_rng([spec["seed"], idx, mon.rank])
            for k in range(Q.shape[0]):
                Q[k] *= 1 + 1e-3 * rng.uniform(-1, 1, Q[k].shape)
            first = [total(W, Q[k])[0] for k in inv]
            for s in range(steps):
                Q = np.array(sims.quiet(sim.integrator.step, Q, sim.config.dt))
                for i, k in enumerate(inv):
                    t, m = total(W, Q[k])
                    if mon.rank == 0:
                        rec.count("run_integrals")
                        rec.case(f"{name}:run:{s}:{k}")
                        if dbg:
                            print("run", name, s, k, t / first[i] - 1)
                        tol = 1e-10 if cf["integrator"] in ("bdf2", "backward_euler", "crank_nicolson") else 2e-13
                        if not (np.isfinite(t) and abs(t - first[i]) <= tol * (s + 5) * abs(first[i])):
                            rec.violation(f"run:var{k}", f"global content of variable {k} drifted by {t / first[i] - 1:.2e} after {s + 1} steps: {name}")
        if mon.rank == 0:
            rec.sample({"config": name})


def drive(chk):
    import random

    rnd = random.Random(chk.seed)

    def rot():
        return dict(lambda0=round(rnd.uniform(-1.5, 1.5), 3), phi0=round(rnd.uniform(-0.75, 0.75), 3), alpha0=round(rnd.uniform(-1.5, 1.5), 3))

    cfg = [dict(case=6, nel=4, ns=4, integrator="tvdrk3", dt=60.0, steps=6, **rot()),
           dict(case=5, nel=3, ns=5, integrator="epi2", dt=600.0, tolerance=1e-6, steps=3),
           dict(case=2, nel=2, ns=3, integrator="ros2", dt=900.0, tolerance=1e-6, steps=3, **rot()),
           dict(case=6, nel=3, ns=3, integrator="srerk3", dt=900.0, tolerance=1e-6, exponential_solver="kiops", steps=3, **rot()),
           dict(case=5, nel=3, ns=2, integrator="bdf2", dt=300.0, tolerance=1e-7, steps=3),
           dict(case=31, nel=2, nev=2, ns=4, integrator="tvdrk3", dt=0.1, steps=5, **rot()),
           dict(case=31, nel=3, nev=2, ns=3, integrator="epi2", dt=1.0, tolerance=1e-6, depth="deep", steps=2, **rot()),
           dict(case=77, nel=2, nev=3, ns=3, integrator="ros2", dt=5.0, tolerance=1e-6, depth="deep", steps=2, **rot()),
           dict(case=31, nel=3, nev=2, ns=4, dt=0.1, depth="deep", hill=1500.0, integrator="tvdrk3", steps=4, **rot()),
           dict(case=77, nel=3, nev=2, ns=5, dt=1.0, depth="shallow", hill=1200.0, integrator="tvdrk3", steps=2, **rot()),
           dict(case=6, nel=1, ns=5, integrator="tvdrk3", dt=100.0, steps=3, **rot()),
           dict(case=31, nel=1, nev=1, ns=4, integrator="tvdrk3", dt=0.1, steps=3, **rot())]
    chk.run_worker("checks/c10.py", {"configs": cfg, "states": 3, "label": "np6"}, np=6, timeout=300)
    chk.run_worker("checks/c10.py", {"configs": [dict(case=6, nel=4, ns=3, integrator="epi2", dt=600.0, tolerance=1e-6, steps=2, **rot()),
                                                 dict(case=31, nel=4, nev=2, ns=3, dt=0.1, depth="deep", hill=1000.0, integrator="tvdrk3", steps=2, **rot())],
                                     "states": 3, "label": "np24"}, np=24, timeout=300)
    if chk.thorough:
        more = []
        for case in (2, 5, 6, 31, 77):
            for integ, dt in (("tvdrk3", 1.0), ("euler1", 1.0), ("epi2", 10.0), ("epi3", 10.0), ("srerk3", 10.0), ("ros2", 10.0), ("rosexp2", 10.0), ("bdf2", 5.0)):
                three = case > 10
                more.append(dict(case=case, nel=rnd.choice([2, 3, 4]), ns=rnd.choice([2, 3, 4, 5]), integrator=integ, dt=dt * (0.1 if three else 30.0),
                                 tolerance=1e-6, steps=15, depth=rnd.choice(["shallow", "deep"]), hill=rnd.choice([0.0, 1000.0]) if three else 0.0, **rot()))
        chk.run_worker("checks/c10.py", {"configs": more, "states": 9, "label": "np6-more"}, np=6, timeout=3500)
    chk.require("tendency_integrals", 40)
    chk.require("run_integrals", 30)


if __name__ == "__main__":
    driver.main("C10", RULE, drive, worker)
