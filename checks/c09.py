"""C09: two-dimensional Euler tendencies: governing scheme, closed box, conservation."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one evaluation of the real tendencies of an arbitrary state in the box (random, at rest, supersonic, complex, "
    "smooth): compared point by point with an independent model of the scheme and with the exact tendency of smooth flows, "
    "and its mass and potential-temperature integrals must vanish; or one real multi-step run whose integrals are followed. "
    "Non-trivial: the state is not the initial state."
)
SMOOTH = {4: 1e-2, 5: 4e-4, 6: 6e-5, 7: 6e-6}


def states(rng, sim, ns, nz, nx):
    """(name, state) pairs."""
    import numpy as np

    Q0 = np.array(sim.initial_Q)
    u = lambda: rng.uniform(-1, 1, Q0[0].shape)
    yield "initial", Q0
    for name, amp, vel in (("weak", 1e-4, 1.0), ("rough", 0.02, 60.0), ("supersonic", 0.05, 900.0), ("rest", 0.05, 0.0)):
        Q = Q0.copy()
        Q[0] *= 1 + amp * u()
        Q[3] *= 1 + amp * u()
        Q[1] = Q[0] * vel * u()
        Q[2] = Q[0] * vel * u()
        yield name, Q
        if name in ("weak", "rough", "supersonic"):
            d = np.stack([Q0[0] * u(), Q0[0] * u() * 50, Q0[0] * u() * 50, Q0[3] * u()])
            yield name + "-complex", Q + 1e-7j * d
    for vx, vz in ((500.0, 0.0), (-500.0, 30.0), (0.0, 500.0), (-30.0, -500.0)):  # one-signed supersonic
        Q = Q0.copy()
        Q[0] *= 1 + 0.02 * u()
        Q[3] *= 1 + 0.02 * u()
        Q[1] = Q[0] * vx * (1 + 0.05 * u())
        Q[2] = Q[0] * vz * (1 + 0.05 * u())
        yield f"stream{vx:+.0f}{vz:+.0f}", Q


def smooth(rng, x, z, dom):
    """Smooth flow with no wind through the walls; returns (state, exact tendency) by complex step in space."""
    import numpy as np
    from vf import cartref as cr

    x0, x1, z0, z1 = dom
    a = rng.uniform(-1, 1, 12)

    def prim(x, z):
        X, Z = (x - x0) / (x1 - x0), (z - z0) / (z1 - z0)
        r = 1.1 - 0.2 * Z + 0.05 * np.sin(2 * X + a[0]) * np.cos(2 * Z + a[1])
        th = 300 + 5 * a[2] * X + 5 * a[3] * Z + 3 * np.cos(2 * X + a[4]) * np.sin(2 * Z + a[5])
        u = 30 * X * (1 - X) * (a[6] + np.cos(2 * Z + a[7]) + a[8] * X)
        w = 30 * Z * (1 - Z) * (a[9] + np.sin(2 * X + a[10]) + a[11] * Z)
        return np.stack([r, r * u, r * w, r * th])

    e = 1e-25
    q = prim(x, z)
    dfx = np.imag(cr.flux(prim(x + 1j * e, z), 0)) / e
    dfz = np.imag(cr.flux(prim(x, z + 1j * e), 1)) / e
    t = -dfx - dfz
    t[2] -= cr.GRAV * q[0]
    return q, t


def worker(rec, spec):
    import numpy as np
    from vf import cartref as cr, dfr, sims

    rng = np.random.default_rng([spec["seed"], 9])
    for idx, (nx, nz, ns, dom) in enumerate(spec["configs"]):
        name = f"{nx}x{nz} ns{ns} {dom}"
        rec.begin(name)
        sim = sims.make(case=2, cart=True, nelx=nx, nelz=nz, ns=ns, domain=dom)
        dx, dz = (dom[1] - dom[0]) / nx, (dom[3] - dom[2]) / nz
        ops = dfr.Ops(ns)
        W = (ops.w[:, None] * ops.w[None, :]).ravel() * dx * dz / 4
        for label, Q in states(rng, sim, ns, nz, nx):
            rec.begin(f"{name} {label}")
            before = Q.copy()
            r = np.array(sim.rhs.full(Q))
            if not np.array_equal(before, Q):
                rec.violation("input-modified", f"the tendency computation modified its input ({name}, {label})")
            if r.shape != Q.shape or r.dtype != Q.dtype:
                rec.violation("result-type", f"result {r.shape}/{r.dtype} for input {Q.shape}/{Q.dtype}")
                continue
            R = cr.rhs(before, nx, nz, ns, dx, dz)
            rec.case(f"{name}:{label}", label != "initial")
            rec.count("complex_states" if np.iscomplexobj(Q) else "real_states")
            parts = [("", np.real)] + ([("imag:", np.imag)] if np.iscomplexobj(Q) else [])
            # size of the individual terms (they nearly cancel for balanced states)
            press = np.max(np.abs(cr.pressure(before[3])))
            vmax = np.max(np.abs(before[1:3] / before[0])) + 340.0
            for what, part in parts:
                f = 1e-7 if what else 1.0
                mag = [np.max(np.abs(part(R[k]))) for k in range(4)]
                base = [np.max(np.abs(before[0])) * vmax, press, press, np.max(np.abs(before[3])) * vmax]
                for k in range(4):
                    a, b = part(r[k]), part(R[k])
                    tol = 1e-9 * mag[k] + 1e-13 * f * ns**2 * base[k] * (2 / dx + 2 / dz)
                    err = np.max(np.abs(a - b)) if np.all(np.isfinite(a)) else np.inf
                    rec.count("points_compared", a.size)
                    if not err <= tol:
                        w = tuple(int(i) for i in np.unravel_index(int(np.argmax(np.abs(a - b))), a.shape))
                        rec.violation(f"scheme:{what}var{k}", f"tendency of variable {k} differs from the governing scheme by {err:.3e} "
                                      f"(accepted {tol:.1e}) at (row, col, point) {w}: {name}, {label}")
                for k in (0, 3):
                    tot = np.sum(part(r[k]) * W)
                    scale = np.sum(np.abs(part(r[k])) * W) + 1e-10 * base[k] * f * (dom[1] - dom[0] + dom[3] - dom[2])
                    rec.count("integrals")
                    if not abs(tot) <= 1e-10 * scale:
                        rec.violation(f"conservation:{what}var{k}", f"integral of the tendency of variable {k} is {tot:.3e} instead of 0 "
                                      f"(scale {scale:.1e}): {name}, {label}")
        # smooth flows with an exact tendency
        if ns in SMOOTH:
            for rep in range(2):
                lx, lz = dom[1] - dom[0], dom[3] - dom[2]
                p = (ops.x + 1) / 2
                X = np.broadcast_to((dom[0] + dx * (np.arange(nx)[None, :, None, None] + p[None, None, None, :])), (nz, nx, ns, ns))
                Z = np.broadcast_to((dom[2] + dz * (np.arange(nz)[:, None, None, None] + p[None, None, :, None])), (nz, nx, ns, ns))
                q, t = smooth(rng, X, Z, dom)
                r = np.array(sim.rhs.full(np.ascontiguousarray(q.reshape(sim.initial_Q.shape)))).reshape(q.shape)
                tol = SMOOTH[ns] * (4.0 / min(nx, nz)) ** (ns - 1)
                for k in range(4):
                    rel = np.max(np.abs(r[k] - t[k])) / np.max(np.abs(t[k]))
                    rec.count("smooth_tendencies")
                    if os.environ.get("VF_DEBUG"):
                        print("smooth", name, k, rel, tol)
                    if not rel <= tol:
                        rec.violation(f"smooth:var{k}", f"tendency of variable {k} of a smooth flow is off by {rel:.2e} (accepted {tol:.1e}): {name}")
                rec.case(f"{name}:smooth{rep}")
        # integrals over a real run
        if idx < spec["runs"]:
            integ = ["tvdrk3", "euler1", "ros2", "epi2"][idx % 4]
            rec.begin(f"{name} run {integ}")
            dt = 0.02 * min(dx, dz) / 340.0 / ns
            if integ in ("ros2", "epi2"):
                dt *= 5
            sim = sims.make(case=2, cart=True, nelx=nx, nelz=nz, ns=ns, domain=dom, integrator=integ, dt=dt, t_end=dt * 12, tolerance=1e-12)
            start = [np.sum(sim.initial_Q[k] * W) for k in (0, 3)]
            Q = np.array(sim.initial_Q)
            Q[1] += 5.0 * np.sin(np.arange(Q[1].size)).reshape(Q[1].shape)
            for s in range(10):
                Q = sims.quiet(sim.integrator.step, Q, dt)
                for i, k in enumerate((0, 3)):
                    now = np.sum(np.array(Q)[k] * W)
                    rec.count("run_integrals")
                    tol = 1e-12 if integ in ("tvdrk3", "euler1") else 1e-10
                    if not abs(now - start[i]) <= tol * start[i]:
                        rec.violation(f"run-conservation:{integ}:var{k}", f"integral of variable {k} drifted by {(now - start[i]) / start[i]:.2e} "
                                      f"in {s + 1} steps: {name}")
            rec.case(f"{name}:run:{integ}")
        rec.sample({"config": name})


def drive(chk):
    import random

    rnd = random.Random(chk.seed)

    def dom():
        x0, z0 = round(rnd.uniform(-2000, 2000), 1), round(rnd.choice([0.0, 0.0, rnd.uniform(0, 500)]), 1)
        return (x0, x0 + round(rnd.uniform(400, 4000), 1), z0, z0 + round(rnd.uniform(400, 3000), 1))

    cfg = [(4, 4, 5, (0.0, 1000.0, 0.0, 1000.0)), (5, 3, 4, dom()), (3, 7, 3, dom()), (6, 4, 6, dom()), (1, 4, 4, dom()), (4, 1, 5, dom()),
           (1, 1, 3, dom()), (2, 2, 7, dom()), (7, 5, 2, dom()), (4, 6, 5, dom())]
    if chk.thorough:
        cfg += [(rnd.randint(1, 9), rnd.randint(1, 9), rnd.randint(2, 8), dom()) for _ in range(120)]
    chk.run_worker("checks/c09.py", {"configs": cfg, "runs": 4 if not chk.thorough else 40, "label": "box"}, np=1, timeout=250 if not chk.thorough else 3000)
    chk.require("real_states", 60)
    chk.require("complex_states", 20)
    chk.require("smooth_tendencies", 20)
    chk.require("run_integrals", 40)


if __name__ == "__main__":
    driver.main("C09", RULE, drive, worker)
