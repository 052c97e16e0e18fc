"""C08: a NaN anywhere stops every process at that very step, before anything is written."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one injected NaN (process, step, variable, point, real or arising through the physics from a poisoned state) in a "
    "real run with checkpoints, netCDF and statistics on. Observed on every process: the exception, the step at which it "
    "comes, the output calls and files for that step. Non-trivial: exactly one process holds the NaN."
)


def worker(rec, spec):
    import numpy as np
    from mpi4py import MPI
    from vf import sims

    mon = MPI.COMM_WORLD.Dup()
    rng = np.random.default_rng(spec["seed"] * 17 + mon.size)  # same stream on all processes
    N = 4
    for it in range(spec["n"]):
        cfg = spec["configs"][it % len(spec["configs"])]
        out = os.path.join(spec["dir"], f"{mon.size}_{it}")
        sim = sims.make(**cfg, output_dir=out, t_end=cfg["dt"] * N, output_freq=1 if not cfg.get("cart") else 0, save_state_freq=1, stat_freq=1)
        victim = int(rng.integers(0, mon.size)) if it >= mon.size or not spec.get("all_ranks") else it
        when = int(rng.integers(1, N + 1))
        mode = ["result", "state", "result-many"][it % 3]
        pos = tuple(int(rng.integers(0, s)) for s in sim.Q.shape)
        if it % 5 == 0:
            pos = (sim.Q.shape[0] - 1,) + tuple(s - 1 for s in sim.Q.shape[1:])
        key = f"np={mon.size} victim={victim} step={when} {mode} pos={pos} case={cfg.get('case')}"
        rec.begin(key)
        calls = []
        real_out, real_step = sim.output.step, sim.integrator.step

        def out_step(Q, sid):
            calls.append((int(sid), bool(np.any(np.isnan(Q)))))
            return real_out(Q, sid)

        def step(Q, h):
            r = real_step(Q, h)
            if sim.step_id == when and mode != "state":
                if mon.rank == victim:
                    r = np.array(r)
                    if mode == "result":
                        r[pos] = np.nan
                    else:
                        r[pos[0]] = -np.nan
            return r

        sim.output.step, sim.integrator.step = out_step, step
        outcome = None
        for k in range(1, N + 1):
            if mode == "state" and k == when and mon.rank == victim:
                q = np.array(sim.Q)
                q[pos] = np.nan
                sim.Q = q
            try:
                with np.errstate(all="ignore"):
                    go = sims.quiet(sim.step)
            except BaseException as e:
                outcome = ("raised", k, type(e).__name__)
                break
            outcome = ("ok", k, bool(go))
        every = mon.allgather(outcome)
        outs = mon.allgather(calls)
        rec.case(key)
        rec.count(f"nan_{mode}")
        if mon.rank == 0:
            if any(o[0] != "raised" for o in every):
                rec.violation(f"not-stopped:{mode}", f"{key}: processes end with {sorted(set(every))}")
            elif {o[1] for o in every} != {when}:
                rec.violation(f"wrong-step:{mode}", f"{key}: stopped at steps {sorted({o[1] for o in every})}")
            if any(o[2] not in ("ValueError", "FloatingPointError", "RuntimeError", "ArithmeticError") for o in every if o[0] == "raised"):
                rec.violation(f"odd-exception:{mode}", f"{key}: {sorted(set(every))}")
            if any(s >= when for c in outs for s, _ in c) or any(bad for c in outs for _, bad in c):
                rec.violation(f"output-after-nan:{mode}", f"{key}: output calls {outs[0]}")
            f = sim.output.state_file_name(when)
            if os.path.exists(f):
                rec.violation(f"checkpoint-of-nan:{mode}", f"{key}: a checkpoint of the failed step exists")
            if not os.path.exists(sim.output.state_file_name(when - 1)):
                rec.violation("checkpoint-lost", f"{key}: the checkpoint of the step before is missing")
        mon.barrier()
        if getattr(sim.output, "ncfile", None) is not None:
            sim.output.ncfile.close()
        if mon.rank == 0 and it < 3:
            rec.sample({"case": key, "outcomes": sorted(set(map(str, every)))})
    # states with enormous but finite values: stopped exactly when a NaN is really there (filters may create one from them)
    for it in range(spec["n_huge"]):
        cfg = dict(spec["configs"][it % len(spec["configs"])])
        filtered = cfg.get("case", 0) > 10 and not cfg.get("cart") and it % 2 == 1
        if filtered:
            cfg.update(expfilter_apply=1, expfilter_order=4, expfilter_strength=1.0, expfilter_cutoff=0.0)
        key = f"np={mon.size} enormous values case={cfg.get('case')} filter={filtered} it={it}"
        rec.begin(key)
        sim = sims.make(**cfg, output_dir=os.path.join(spec["dir"], f"e{mon.size}_{it}"), t_end=cfg["dt"] * 2, save_state_freq=1)
        sims.quiet(sim.step)
        victim = int(rng.integers(0, mon.size))
        kind = it % 3
        inner = sim.integrator.step

        def step(Q, h):
            r = np.array(inner(Q, h))
            if mon.rank == victim:
                flat = r.reshape(-1)
                big = np.finfo(float).max
                vals = [np.where(np.arange(flat.size) < flat.size // 2, big, -big), np.where(np.arange(flat.size) % 2, big, -big), np.full(flat.size, big)][kind]
                flat[:] = vals
            return r

        sim.integrator.step = step
        with np.errstate(all="ignore"):
            try:
                sims.quiet(sim.step)
                out = "ok"
            except BaseException as e:
                out = type(e).__name__
        every = mon.allgather((out, bool(np.any(np.isnan(sim.Q)))))
        nan = any(b for _, b in every)
        rec.case(key)
        rec.count("nan_from_filter" if nan else "enormous_states")
        if mon.rank == 0:
            if nan and any(o == "ok" for o, _ in every):
                rec.violation("not-stopped:filter", f"{key}: the filtered state holds a NaN and the processes end with {sorted(set(every))}")
            if nan and os.path.exists(sim.output.state_file_name(2)):
                rec.violation("checkpoint-of-nan:filter", f"{key}: a checkpoint of the failed step exists")
            if not nan and any(o != "ok" for o, _ in every):
                rec.violation("finite-stopped", f"{key}: a run without any NaN is stopped: {sorted(set(every))}")
            if not nan and not os.path.exists(sim.output.state_file_name(2)):
                rec.violation("finite-checkpoint", f"{key}: the checkpoint of a state without NaN is missing")
        mon.barrier()
    # healthy runs are not stopped
    cfg = spec["configs"][0]
    sim = sims.make(**cfg, output_dir=os.path.join(spec["dir"], f"h{mon.size}"), t_end=cfg["dt"] * 3)
    n = 0
    while sims.quiet(sim.step):
        n += 1
    rec.count("healthy_steps", n)
    if n != 3:
        rec.violation("healthy-run-stopped", f"a run without NaN took {n} steps of 3")


def drive(chk):
    me = "checks/c08.py"
    sw, sw5 = dict(case=6, nel=4, ns=3, dt=100.0), dict(case=5, nel=4, ns=3, dt=100.0)
    eu = dict(case=31, nel=4, ns=2, nev=2, dt=1.0)
    cart = dict(cart=True, case=2, nelx=3, nelz=3, ns=3, dt=0.1)
    m = 8 if chk.thorough else 1
    chk.run_worker(me, {"configs": [cart], "dir": chk.scratch, "n": 12 * m, "n_huge": 3 * m, "label": "cart"}, np=1, timeout=120 * m)
    chk.run_worker(me, {"configs": [sw, eu, sw5], "dir": chk.scratch, "n": 24 * m, "n_huge": 6 * m, "all_ranks": True, "label": "np6"}, np=6, timeout=150 * m)
    chk.run_worker(me, {"configs": [sw, eu], "dir": chk.scratch, "n": 26 * m, "n_huge": 4, "all_ranks": True, "label": "np24"}, np=24, timeout=200 * m)
    for c in ("nan_result", "nan_state", "nan_result-many"):
        chk.require(c, 20)
    chk.require("healthy_steps", 3)
    chk.require("enormous_states", 4)
    chk.require("nan_from_filter", 1)


if __name__ == "__main__":
    driver.main("C08", RULE, drive, worker)
