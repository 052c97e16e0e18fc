"""C03: results do not depend on how many processes the cubed sphere is spread over."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one field of one experiment (initial state, right-hand side of a random real or complex state, state after "
    "each step, printed global statistics) computed by real runs on two different process counts and compared in global "
    "order, assembled by the harness. Non-trivial: the field varies in space and differs from the initial state where "
    "time advanced."
)


def worker(rec, spec):
    import contextlib, io, re
    import numpy as np
    from mpi4py import MPI
    from vf import glob, sims

    comm = MPI.COMM_WORLD
    mon = comm.Dup()
    for idx, cfg in enumerate(spec["configs"]):
        rec.begin(cfg)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            sim = sims.make(**cfg)
            ax = glob.q_axis(sim)
            res = {}

            def put(name, a):
                g = glob.gather(mon, a, ax)
                if g is not None:
                    res[name] = g

            put("initial", sim.initial_Q)
            for amp in (1e-3, 0.05):
                Q = glob.random_like(sim, mon, spec["seed"] * 31 + idx, amp)
                put(f"rhs{amp}", sim.rhs.full(Q))
            Qc = glob.random_like(sim, mon, spec["seed"] * 31 + idx, 1e-3, cplx=True)
            r = sim.rhs.full(Qc)
            put("rhs_c_re", r.real)
            put("rhs_c_im", r.imag)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                for k in range(cfg.get("_steps", 2)):
                    sim.step()
                    put(f"step{k + 1}", sim.Q)
            rec.count("steps_run")
        stats = re.findall(r"(normalized error for \w+|l1|l2|linf) = ([-+0-9.eE]+|nan)", out.getvalue())
        first = re.findall(r"(Integral of \w+) = ([-+0-9.eE]+|nan)", buf.getvalue() + out.getvalue())
        if comm.rank == 0:
            np.savez(os.path.join(spec["dir"], f"{comm.size}_{idx}.npz"), **res)
            with open(os.path.join(spec["dir"], f"{comm.size}_{idx}.json"), "w") as f:
                json.dump({"stats": stats, "first": first}, f)


def configs(thorough):
    rot = dict(lambda0=-0.3, phi0=0.25, alpha0=-0.15)
    base = dict(nel=4, ns=3, dt=300.0)
    c = []
    for integ, kw in [("tvdrk3", {}), ("euler1", dict(dt=60.0)), ("epi2", {}), ("epi3", {}), ("srerk3", {}), ("ros2", {}),
                      ("rosexp2", dict(_steps=1)), ("crank_nicolson", dict(_steps=1, dt=100.0, tolerance=1e-7)),
                      ("bdf2", dict(_steps=2, dt=100.0, tolerance=1e-7)), ("backward_euler", dict(_steps=1, dt=100.0, tolerance=1e-7))]:
        c.append({**base, **dict(case=6 if integ in ("epi2", "tvdrk3", "ros2") else 5, integrator=integ,
                                 tolerance=1e-10, stat_freq=1, **rot), **kw})
    c.append(dict(case=2, nel=4, ns=3, dt=300.0, integrator="tvdrk3", stat_freq=1, **rot))
    c.append(dict(case=2, nel=4, ns=4, dt=300.0, integrator="epi2", tolerance=1e-10, stat_freq=1))
    for a in ((0.0, 0.2, 0.3), (2.4, -0.9, 1.3), (-1.8, 1.1, -2.0)):  # the extremes lie on various tiles
        c.append(dict(case=2, nel=4, ns=2, dt=300.0, integrator="tvdrk3", stat_freq=1, lambda0=a[0], phi0=a[1], alpha0=a[2]))
    for s in ["kiops", "pmex_ne", "cwy_1s", "cwy_ne", "cwy_ne1s", "icwy_1s", "icwy_neiop", "icwy_ne", "icwy_ne1s",
              "kiops_ne", "pmex_1s", "pmex_ne1s", "exode"]:
        c.append(dict(case=6, nel=4, ns=3, dt=200.0, integrator="epi2", exponential_solver=s, tolerance=1e-9, _steps=1, **rot))
    c.append(dict(case=31, nel=4, ns=2, nev=2, dt=1.0, integrator="tvdrk3"))
    c.append(dict(case=31, nel=4, ns=3, nev=2, dt=2.0, integrator="epi2", tolerance=1e-9, _steps=1, depth="deep"))
    c.append(dict(case=21, nel=4, ns=2, nev=2, dt=0.5, integrator="tvdrk3"))
    c.append(dict(case=21, nel=4, ns=3, nev=2, dt=1.0, integrator="ros2", _steps=1, tolerance=1e-9))
    if thorough:
        c.append(dict(case=6, nel=6, ns=4, dt=300.0, integrator="tvdrk3", stat_freq=1, _steps=4, **rot))
        c.append(dict(case=5, nel=6, ns=3, dt=600.0, integrator="epi4", tolerance=1e-10, stat_freq=1, _steps=4))
        c.append(dict(case=31, nel=6, ns=2, nev=2, dt=1.0, integrator="tvdrk3", _steps=3))
        c.append(dict(case=21, nel=6, ns=2, nev=3, dt=0.5, integrator="tvdrk3", _steps=2))
        c.append(dict(case=6, nel=4, ns=3, dt=300.0, integrator="epi5", tolerance=1e-10, _steps=5))
        c.append(dict(case=6, nel=4, ns=3, dt=300.0, integrator="epi_stiff4", tolerance=1e-10, _steps=3))
    return c


# trajectories may differ by the convergence tolerance of the inner solver, everything else by rounding only
TRAJ = {"tvdrk3": 1e-10, "euler1": 1e-10}


def drive(chk):
    import numpy as np

    shared = os.path.join(chk.scratch, "out")
    os.makedirs(shared)
    cfgs = configs(chk.thorough)
    sizes = [6, 24] + ([54] if chk.thorough else [])
    for n in sizes:
        sel = cfgs if n < 54 else [c for c in cfgs]
        spec = {"configs": [c if (n < 54 or c.get("nel", 4) == 6) else None for c in sel], "dir": shared, "label": f"np{n}"}
        if n == 54:
            spec["configs"] = [c for c in sel if c["nel"] == 6]
        chk.run_worker("checks/c03.py", spec, np=n, timeout=150 if n < 54 else 900)
    for n in sizes[1:]:
        sub = cfgs if n < 54 else [c for c in cfgs if c["nel"] == 6]
        for j, cfg in enumerate(sub):
            i = cfgs.index(cfg)
            pa, pb = os.path.join(shared, f"6_{i}.npz"), os.path.join(shared, f"{n}_{j if n == 54 else i}.npz")
            if not (os.path.exists(pa) and os.path.exists(pb)):
                continue
            A, B = np.load(pa), np.load(pb)
            name = f"case{cfg['case']}:{cfg['integrator']}:{cfg.get('exponential_solver', '')}"
            traj = TRAJ.get(cfg["integrator"], 1e-8)
            for f in sorted(set(A.files) | set(B.files)):
                if f not in A.files or f not in B.files:
                    chk.violation(f"{name}:{f}:missing", f"{f} exists on one process count only")
                    continue
                a, b = A[f], B[f]
                if a.shape != b.shape:
                    chk.violation(f"{name}:{f}:shape", f"shapes {a.shape} / {b.shape}")
                    continue
                # scale per variable
                axes = tuple(k for k in range(a.ndim) if k != 1)
                scale = np.max(np.abs(a), axis=axes, keepdims=True)
                if f.startswith("rhs"):
                    # rounding in the flux differences: compare with the largest tendency of any variable of that kind
                    scale = np.maximum(scale, 1e-12 * np.max(scale))
                scale = np.where(scale > 0, scale, 1.0)
                err = float(np.max(np.abs(a - b) / scale)) if np.all(np.isfinite(a)) and np.all(np.isfinite(b)) else np.inf
                if f.startswith("step"):
                    # momentum components can be tiny: measure against the initial momentum scale too
                    base = np.max(np.abs(A["initial"]), axis=axes, keepdims=True)
                    mom = np.max(base[:, 1:3])
                    base[:, 1:3] = np.maximum(base[:, 1:3], mom)
                    if base.shape[1] == 5:
                        base[:, 3] = np.maximum(base[:, 3], mom)
                    scale = np.maximum(scale, base)
                    err = float(np.max(np.abs(a - b) / scale)) if np.all(np.isfinite(a - b)) else np.inf
                    tol = traj
                elif f == "initial":
                    tol = 1e-12
                else:
                    tol = 1e-10
                chk.count("max_err_e16:" + ("rhs" if f.startswith("rhs") else "step" if f.startswith("step") else f), 0)
                nontriv = float(np.std(a)) > 0 and (not f.startswith("step") or not np.array_equal(a, A["initial"]))
                chk.case(f"{name}:{f}:{n}", nontrivial=nontriv)
                chk.count("fields_compared")
                if os.environ.get("VF_DEBUG"):
                    print(f"{name:40s} {f:10s} {n} err {err:.2e} tol {tol:.1e}")
                if not err <= tol:
                    w = np.unravel_index(int(np.nanargmax(np.abs(a - b))), a.shape)
                    chk.violation(f"{name}:{f.rstrip('0123456789')}", f"{f} differs by {err:.3e} (relative) between 6 and {n} "
                                  f"processes, at {tuple(int(x) for x in w)} ({cfg})", {"cfg": cfg})
            ja = json.load(open(pa[:-4] + ".json"))
            jb = json.load(open(pb[:-4] + ".json"))
            if len(ja["stats"]) != len(jb["stats"]):
                chk.violation(f"{name}:stats:count", "not the same statistics are printed")
            for (na, va), (nb, vb) in zip(ja["stats"], jb["stats"]):
                chk.case(f"{name}:stat:{na}:{n}")
                chk.count("statistics_compared")
                if na != nb or not abs(float(va) - float(vb)) <= (
                        1e-6 * abs(float(va)) + 1e-12 if cfg["integrator"] == "tvdrk3" else 1e-9):
                    chk.violation(f"{name}:stat:{na}", f"{na} = {va} on 6 processes, {vb} on {n} ({cfg})")
            for (na, va), (nb, vb) in zip(ja["first"], jb["first"]):
                chk.count("statistics_compared")
                if na != nb or not abs(float(va) - float(vb)) <= 1e-10 * abs(float(va)):
                    chk.violation(f"{name}:stat:{na}", f"{na} = {va} on 6 processes, {vb} on {n} ({cfg})")
    chk.sample(cfgs[0])
    chk.sample(cfgs[-1])
    chk.require("fields_compared", 150)
    chk.require("statistics_compared", 20)


if __name__ == "__main__":
    driver.main("C03", RULE, drive, worker)
