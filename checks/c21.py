"""C21: filters and sponge act exactly as configured, once per step, and not at all when off."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one filter configuration (kind, order, cutoff, strength, layer depth, time scale, points per element, grid, process count) "
    "used in a real run or tendency evaluation. In runs, the state given to each step must be exactly the filtered result of the step "
    "before, by an independent modal computation; filtered tendencies are compared with an independent model of the scheme; element "
    "masses must be kept. Non-trivial: the filter changes the state."
)


def worker(rec, spec):
    import logging
    import numpy as np
    from mpi4py import MPI
    from vf import cartref, dfr, glob, sims, swref

    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    mon = MPI.COMM_WORLD.Dup()
    rank, size = mon.rank, mon.size
    rng = np.random.default_rng([spec["seed"], 21, size])
    R = lambda *a: int(rng.integers(*a))
    pick = lambda s: s[R(len(s))]
    out = os.path.join(spec["out"], "results")

    def traced_run(sim):
        """Run the simulation; returns the (input, output, dt) of every step and the final state."""
        log = []
        inner = sim.integrator.step

        def step(Q, dt, *a, **k):
            before = np.array(Q, copy=True)
            res = inner(Q, dt, *a, **k)
            log.append((before, np.array(res, copy=True), dt))
            return res

        sim.integrator.step = step
        sims.quiet(sim.run)
        rec.count("filtered_steps", len(log))
        return log, np.array(sim.Q, copy=True)

    def disturb(sim):
        Q = np.array(sim.initial_Q, copy=True)
        loc = np.random.default_rng([spec["seed"], rank])
        Q *= 1 + 1e-4 * loc.uniform(-1, 1, Q.shape)
        return Q

    def judge(label, log, final, filt, what):
        for k, (before, res, dt) in enumerate(log):
            nxt = log[k + 1][0] if k + 1 < len(log) else final
            want = filt(res, dt)
            moved = np.max(np.abs(want - res) / (1e-300 + np.max(np.abs(res))))
            for v in range(len(want)):
                scale = np.max(np.abs(res[v])) + 1e-300
                err = np.max(np.abs(nxt[v] - want[v])) if np.all(np.isfinite(nxt[v])) else np.inf
                rec.count("values_compared", want[v].size)
                if err > 1e-11 * scale + 1e-13 * np.max(np.abs(res)):
                    rec.violation(f"{label}:var{v}", f"after step {k + 1} variable {v} is not the {label} result: off by {err:.2e} of {scale:.2e} ({what})")
            if moved > 0:
                rec.count("steps_changed_by_filter")

    if size == 1:
        for rep in range(spec["n_sponge"]):
            ns, nx, nz = R(1, 7), R(1, 5), R(1, 6)
            dom = (0.0, 1000.0, float(pick([0.0, 100.0])), float(pick([1500.0, 3000.0])))
            zscale, tscale = float(rng.uniform(0.2, 1.0)) * (dom[3] - dom[2]), float(10 ** rng.uniform(-1.5, 2))
            dt = float(10 ** rng.uniform(-3, -1.5))
            what = f"{nx}x{nz}, {ns} points, layer {zscale:.0f} m, time {tscale:.3g} s, dt {dt:.3g}"
            rec.begin("sponge " + what)
            sim = sims.make(cart=True, case=2, nelx=nx, nelz=nz, ns=ns, domain=dom, dt=dt, t_end=3.4 * dt, apply_sponge=1, sponge_zscale=zscale,
                            sponge_tscale=tscale, output_dir=out, integrator=pick(["tvdrk3", "euler1"]))
            Q = disturb(sim)
            Q[2] += 3.0 * np.sin(np.arange(Q[2].size)).reshape(Q[2].shape)
            sim.Q = sim.initial_Q = Q
            x = dfr.nodes(ns)[0]
            dz = (dom[3] - dom[2]) / nz
            z = dom[2] + dz * (np.arange(nz)[:, None] + (x[None, :] + 1) / 2)  # (nz, ns)
            Z = np.broadcast_to(z[:, None, :, None], (nz, nx, ns, ns)).reshape(nz, nx, ns * ns)
            zs = dom[3] - zscale
            beta = np.where(Z >= zs, np.sin(np.pi / 2 * (Z - zs) / zscale) ** 2 / tscale, 0.0)

            def filt(q, dt):
                q = q.copy()
                q[2] = q[2] / (1 + beta * dt)
                return q

            log, final = traced_run(sim)
            judge("sponge", log, final, filt, what)
            if len(log) != 4:
                rec.violation("sponge:steps", f"{len(log)} steps instead of 4 ({what})")
            rec.case(f"sponge:{nx}x{nz}:{ns}:{rep}", np.any(beta > 0))
        for rep in range(spec["n_deriv"]):
            ns, nx, nz = R(2, 8), R(1, 4), R(1, 4)
            order, cutoff = pick([2, 4, 8, 16, 32]), float(pick([0.0, 0.25, 0.4, 0.6, 0.75]))
            given = dict(filter_order=order, filter_cutoff=cutoff) if rep % 4 else {}
            if not given:
                order, cutoff = 16, 0.25
            what = f"{nx}x{nz}, {ns} points, order {order}, cutoff {cutoff}"
            rec.begin("derivative filter " + what)
            sim = sims.make(cart=True, case=2, nelx=nx, nelz=nz, ns=ns, filter_apply=1, output_dir=out, **given)
            Q = disturb(sim)
            Q[1] += 20 * rng.standard_normal(Q[1].shape)
            Q[2] += 20 * rng.standard_normal(Q[2].shape)
            r = np.array(sim.rhs.full(Q))
            dfr.Ops.filter = (order, cutoff)
            ref = cartref.rhs(Q, nx, nz, ns, 1000.0 / nx, 1500.0 / nz)
            dfr.Ops.filter = None
            plain = cartref.rhs(Q, nx, nz, ns, 1000.0 / nx, 1500.0 / nz)
            for v in range(4):
                scale = np.max(np.abs(plain[v])) + np.max(np.abs(ref[v]))
                err = np.max(np.abs(r[v] - ref[v]))
                if not err <= 1e-9 * scale:
                    rec.violation(f"derivative-filter:var{v}", f"filtered tendency of variable {v} is off by {err:.2e} of {scale:.2e} ({what})")
            rec.count("filtered_tendencies")
            rec.case(f"deriv:{nx}x{nz}:{ns}:{order}:{cutoff}", np.max(np.abs(ref - plain)) > 0)
        # switched off: bit-for-bit the same run whatever the other filter options say
        for rep in range(spec["n_off"]):
            runs = []
            for more in ({}, dict(filter_order=2, filter_cutoff=0.1, sponge_zscale=700.0, sponge_tscale=0.01, expfilter_order=1, expfilter_cutoff=0.0,
                                  expfilter_strength=50.0)):
                sim = sims.make(cart=True, case=2, nelx=2, nelz=3, ns=3, dt=0.01, t_end=0.03, output_dir=out, **more)
                log, final = traced_run(sim)
                judge("no-filter", log, final, lambda q, dt: q, "no filter")
                runs.append(final)
            if not np.array_equal(*runs):
                rec.violation("off:differs", "options of filters that are switched off changed the run")
            rec.case(f"off:{rep}")
        return

    # modal filter of the three-dimensional state
    for rep in range(spec["n_modal"]):
        ns, nel, nev = pick([2, 3, 4, 5]), 2, pick([1, 2, 3])
        order, cutoff, strength = pick([1, 2, 4, 8, 16]), float(pick([0.0, 0.2, 0.5, 0.7])), float(10 ** rng.uniform(-1, 1.6))
        case = pick([31, 21, 77])
        what = f"case {case}, {ns} points, order {order}, cutoff {cutoff}, strength {strength:.3g}"
        rec.begin("modal filter " + what)
        sim = sims.make(case=case, nel=nel, nev=nev, ns=ns, dt=0.5, t_end=1.2, ztop=25000.0, expfilter_apply=1, expfilter_order=order,
                        expfilter_cutoff=cutoff, expfilter_strength=strength, output_dir=out, integrator="tvdrk3")
        sim.Q = sim.initial_Q = disturb(sim)
        m = np.arange(ns) / (ns - 1)
        fac = np.where(m > cutoff, np.exp(-strength * (np.maximum(m - cutoff, 0) / (1 - cutoff)) ** order), 1.0)
        F = dfr.modal(dfr.nodes(ns)[0], fac)
        sg = np.array(sim.metric.sqrtG_new)
        shape = sg.shape[:-1] + (ns, ns, ns)

        def filt(q, dt):
            y = (q * sg).reshape((len(q),) + shape)
            y = np.einsum("ia,jb,kc,...abc->...ijk", F, F, F, y)
            return y.reshape(q.shape) / sg

        log, final = traced_run(sim)
        judge("modal-filter", log, final, filt, what)
        # element masses kept by each filtering
        W = dfr.nodes(ns)[1]
        W3 = np.einsum("a,b,c->abc", W, W, W).ravel()
        for k, (before, res, dt) in enumerate(log):
            nxt = log[k + 1][0] if k + 1 < len(log) else final
            for v in (0, 4):
                a, b = (res[v] * sg) @ W3, (nxt[v] * sg) @ W3
                rec.count("element_masses", a.size)
                if np.max(np.abs(a - b) / np.abs(a)) > 1e-12:
                    rec.violation(f"modal-filter:mass{v}", f"the filter changed the content of an element by {np.max(np.abs(a - b) / np.abs(a)):.2e} ({what})")
        rec.case(f"modal:{case}:{ns}:{order}:{cutoff}", bool(np.any(fac < 1)))
    # filtered derivative on the sphere
    for rep in range(spec["n_sw"]):
        ns, nel = pick([2, 3, 4]), 2
        order, cutoff = pick([2, 4, 16]), float(pick([0.0, 0.25, 0.5]))
        what = f"sphere, {ns} points, order {order}, cutoff {cutoff}"
        rec.begin("derivative filter " + what)
        sim = sims.make(case=6, nel=nel, ns=ns, filter_apply=1, filter_order=order, filter_cutoff=cutoff, output_dir=out)
        c = sim.config
        Q = glob.random_like(sim, mon, [spec["seed"], 5, rep], 0.05)
        r = np.array(sim.rhs.full(Q))
        GQ = np.stack(mon.allgather(Q))
        Gr = np.stack(mon.allgather(r))
        dfr.Ops.filter = (order, cutoff)
        ref = swref.Reference(nel, ns, c.lambda0, c.phi0, c.alpha0)
        want = ref.rhs(GQ)
        dfr.Ops.filter = None
        for v in range(3):
            a, b = Gr[:, v].ravel(), want[:, v].ravel()
            err = np.max(np.abs(a - b)) / np.max(np.abs(b))
            if not err <= 1e-9:
                rec.violation(f"derivative-filter:sphere{v}", f"filtered tendency of variable {v} is off by {err:.2e} ({what})")
        rec.count("filtered_tendencies")
        rec.case(f"sphere:{ns}:{order}:{cutoff}")
    rec.sample(what)


def drive(chk):
    q = chk.tier == "quick"
    chk.run_worker("checks/c21.py", {"n_sponge": 6 if q else 60, "n_deriv": 8 if q else 80, "n_off": 1 if q else 4}, np=1, timeout=300, label="box")
    chk.run_worker("checks/c21.py", {"n_modal": 4 if q else 30, "n_sw": 2 if q else 12}, np=6, timeout=500, label="sphere")
    chk.require("filtered_steps", 30)
    chk.require("filtered_tendencies", 10)
    chk.require("element_masses", 50)
    chk.require("steps_changed_by_filter", 15)


if __name__ == "__main__":
    driver.main("C21", RULE, drive, worker)
