"""C11: shallow-water tendencies are those of the governing equations, at any resolution, rotation, topography and state."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one evaluation of the real tendencies: of a smooth random flow (compared with the exact tendency obtained by "
    "vector calculus in space), of an arbitrary rough or complex state (compared point by point with an independent global model "
    "of the scheme), or of a balanced flow (must vanish with resolution). Non-trivial: the exact tendency is not zero, or the "
    "state has jumps at the interfaces."
)
# accepted relative error of the tendency of a smooth flow on 4 elements per panel edge, per number of points
SMOOTH = {3: 0.2, 4: 0.03, 5: 2.5e-3, 6: 2.5e-4}


def mountain(p):
    """Williamson case 5: cone of 2000 m at (270E, 30N), in longitude/latitude distance."""
    import numpy as np

    lon = np.mod(np.arctan2(p[..., 1], p[..., 0]), 2 * np.pi)
    lat = np.arctan2(p[..., 2], np.hypot(p[..., 0], p[..., 1]))
    rr = np.pi / 9
    d2 = (lon - 1.5 * np.pi) ** 2 + (lat - np.pi / 6) ** 2
    return 2000.0 * (1 - np.sqrt(np.minimum(rr**2, d2)) / rr)


def topography(ref):
    import numpy as np

    out = dict(b=[], b_we=[], b_sn=[], dz1=[], dz2=[])
    nel, n = ref.nel, ref.ns
    for P in ref.panels:
        b, bw, bs = mountain(P.int.p), mountain(P.we.p), mountain(P.sn.p)
        out["b"].append(b.reshape(nel, nel, n * n))
        out["b_we"].append(bw)
        out["b_sn"].append(bs)
        out["dz1"].append(ref.ops.deriv(b, bw[:, :-1], bw[:, 1:], 3).reshape(nel, nel, n * n))
        out["dz2"].append(ref.ops.deriv(b, bs[:-1], bs[1:], 2).reshape(nel, nel, n * n))
    return {k: np.stack(v) for k, v in out.items()}


def worker(rec, spec):
    import numpy as np
    from mpi4py import MPI
    from vf import glob, sims, sphere, swref

    np.seterr(all="ignore")
    mon = MPI.COMM_WORLD.Dup()
    rng = np.random.default_rng([spec["seed"], 11, mon.size])
    for idx, (case, nel, ns, rot) in enumerate(spec["configs"]):
        lam, phi, al = rot
        sim = sims.make(case=case, nel=nel, ns=ns, lambda0=lam, phi0=phi, alpha0=al)
        lam, phi, al = sim.config.lambda0, sim.config.phi0, sim.config.alpha0
        T = sphere.Tile(mon.size, mon.rank, nel, ns, lam, phi, al)
        sc = 2 / T.dx
        name = f"case{case} nel{nel} ns{ns} rot{tuple(round(x, 3) for x in (lam, phi, al))} np{mon.size}"

        # 1. smooth flows against exact tendencies (flat bottom)
        if case != 5 and ns in SMOOTH:
            for rep in range(spec["smooth"]):
                seed = int(rng.integers(1 << 30))
                rec.begin(f"smooth {name} {seed}")
                fl = sphere.ShallowFlow(np.random.default_rng(seed), deg=2, wind=[60.0, 20.0, 120.0][rep % 3])
                u1, u2 = T.contra(fl.wind(T.p) / sphere.RADIUS)
                h = fl.h(T.p)
                Q = np.stack([T.flat(h), T.flat(h * u1 * sc), T.flat(h * u2 * sc)])
                r = sim.rhs.full(Q)
                dh, dm, _ = fl.tendencies(T.p)
                d1, d2 = T.contra(dm / sphere.RADIUS)
                ref = np.stack([T.flat(dh), T.flat(d1 * sc), T.flat(d2 * sc)])
                err = np.array([np.max(np.abs(r[k] - ref[k])) if np.all(np.isfinite(r[k])) else np.inf for k in range(3)])
                mag = np.array([np.max(np.abs(ref[k])) for k in range(3)])
                mon.Allreduce(MPI.IN_PLACE, err, MPI.MAX)
                mon.Allreduce(MPI.IN_PLACE, mag, MPI.MAX)
                tol = SMOOTH[ns] * (4.0 / nel) ** (ns - 1)
                if mon.rank == 0:
                    rec.case(f"smooth:{name}:{seed}")
                    rec.count("smooth_tendencies")
                    rel = err / mag
                    if os.environ.get("VF_DEBUG"):
                        print("smooth", name, rel, tol)
                    for k in range(3):
                        if not rel[k] <= tol:
                            rec.violation(f"smooth:var{k}", f"tendency of variable {k} of a smooth flow is off by {rel[k]:.2e} "
                                          f"(relative, accepted {tol:.1e}) for {name}, flow seed {seed}", {"seed": seed})

        # 2. arbitrary states against the independent global model
        ref = topo = None
        if mon.rank == 0:
            ref = swref.Reference(nel, ns, lam, phi, al)
            topo = topography(ref) if case == 5 else None
        for rep in range(spec["rough"]):
            cplx = rep % 3 == 2
            rec.begin(f"rough {name} {rep}")
            Q = glob.random_like(sim, mon, [spec["seed"], idx, rep], [0.002, 0.05, 0.05][rep % 3], cplx)
            if rep % 4 == 1:  # supercritical flow
                Q[1:] *= 25.0
            before = Q.copy()
            r = sim.rhs.full(Q)
            if not np.array_equal(before, Q):
                rec.violation("input-modified", f"the tendency computation modified its input for {name}")
            if r.shape != Q.shape or r.dtype != Q.dtype:
                rec.violation("result-type", f"result {r.shape}/{r.dtype} for input {Q.shape}/{Q.dtype}")
                continue
            GQ, Gr = glob.gather(mon, Q, 1), glob.gather(mon, r, 1)
            if mon.rank == 0:
                R = ref.rhs(GQ, topo)
                rec.case(f"rough:{name}:{rep}")
                rec.count("complex_states" if cplx else "rough_states")
                for k in range(3):
                    parts = [("", np.real)] + ([("imaginary part of ", np.imag)] if cplx else [])
                    for what, part in parts:
                        a, b = part(Gr[:, k]), part(R[:, k])
                        s = np.max(np.abs(b))
                        err = float(np.max(np.abs(a - b)) / s) if np.all(np.isfinite(a)) else np.inf
                        rec.count("points_compared", a.size)
                        if os.environ.get("VF_DEBUG"):
                            print("rough", name, rep, k, what, err)
                        if not err <= 1e-10:
                            w = tuple(int(x) for x in np.unravel_index(int(np.argmax(np.abs(a - b))), a.shape))
                            rec.violation(f"scheme:var{k}{':imag' if what else ''}", f"{what}tendency of variable {k} differs from "
                                          f"the governing scheme by {err:.2e} at (panel, row, col, point) {w} for {name}, state {rep}")

        # 3. geostrophically balanced zonal flow (case 2) stays as it is
        if case == 2:
            r = sim.rhs.full(np.array(sim.initial_Q))
            res = np.array([np.max(np.abs(r[k])) for k in range(3)])
            adv = np.array([np.max(np.abs(sim.initial_Q[k])) for k in range(3)])
            mon.Allreduce(MPI.IN_PLACE, res, MPI.MAX)
            mon.Allreduce(MPI.IN_PLACE, adv, MPI.MAX)
            f = 2 * sphere.OMEGA
            lim = {2: 0.3, 3: 0.06, 4: 0.02, 5: 1.5e-3, 6: 1.5e-4}[ns] * (4.0 / nel) ** (ns - 1)
            mom = max(adv[1:])
            rel = [res[0] / (adv[0] * f), res[1] / (mom * f), res[2] / (mom * f)]
            if mon.rank == 0:
                rec.case(f"balanced:{name}")
                rec.count("balanced_flows")
                if os.environ.get("VF_DEBUG"):
                    print("balanced", name, rel, lim)
                for k in range(3):
                    if not rel[k] <= lim:
                        rec.violation(f"balanced:var{k}", f"balanced zonal flow has tendency {rel[k]:.2e} (accepted {lim:.1e}) for {name}")
        if mon.rank == 0:
            rec.sample({"config": name})


def drive(chk):
    import random

    rnd = random.Random(chk.seed)

    def rot():
        return (round(rnd.uniform(-1.5, 1.5), 3), round(rnd.uniform(-0.75, 0.75), 3), round(rnd.uniform(-1.5, 1.5), 3))

    quick = [(2, 4, 6, (0.0, 0.0, 0.0)), (2, 4, 6, rot()), (6, 4, 5, rot()), (5, 4, 3, (0.0, 0.0, 0.0)), (5, 4, 4, rot()),
             (2, 2, 4, rot()), (6, 3, 3, rot()), (5, 2, 6, rot()), (2, 4, 2, rot()), (6, 2, 2, (0.0, 0.0, 0.0)), (5, 1, 5, rot()), (6, 1, 2, rot())]
    chk.run_worker("checks/c11.py", {"configs": quick, "smooth": 3, "rough": 4, "label": "np6"}, np=6, timeout=250)
    chk.run_worker("checks/c11.py", {"configs": [(2, 4, 5, rot()), (5, 4, 3, rot())], "smooth": 2, "rough": 3, "label": "np24"},
                   np=24, timeout=250)
    if chk.thorough:
        more = [(c, n, s, rot()) for c in (2, 5, 6) for n in (2, 3, 4, 6) for s in (2, 3, 4, 5, 6)]
        chk.run_worker("checks/c11.py", {"configs": more, "smooth": 6, "rough": 8, "label": "np6-more"}, np=6, timeout=3000)
        chk.run_worker("checks/c11.py", {"configs": [(c, 6, s, rot()) for c in (2, 5, 6) for s in (3, 5)], "smooth": 2, "rough": 3,
                                         "label": "np54"}, np=54, timeout=1500)
    chk.require("smooth_tendencies", 8)
    chk.require("rough_states", 15)
    chk.require("complex_states", 5)
    chk.require("balanced_flows", 3)


if __name__ == "__main__":
    driver.main("C11", RULE, drive, worker)
