"""C07: observing a run (files, checkpoints, statistics, solver logs) never changes the run."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one time step of one experiment executed twice by the real code: with no output at all, and with a combination "
    "of outputs (netCDF or images, checkpoints, statistics, solver database, verbose). The monitor compares the states bit by "
    "bit after every step and around every single output call. Non-trivial: the observed run really produced output "
    "in that step."
)

CUBE = [
    dict(case=5, nel=4, ns=3, dt=300.0, integrator="tvdrk3"),
    dict(case=2, nel=4, ns=3, dt=300.0, integrator="tvdrk3"),
    dict(case=6, nel=4, ns=3, dt=300.0, integrator="epi2", tolerance=1e-8),
    dict(case=5, nel=4, ns=3, dt=300.0, integrator="ros2", tolerance=1e-8),
    dict(case=31, nel=4, ns=2, nev=2, dt=1.0, integrator="tvdrk3"),
    dict(case=21, nel=4, ns=2, nev=2, dt=0.5, integrator="tvdrk3"),
    dict(case=5, nel=4, ns=3, dt=300.0, integrator="srerk3", tolerance=1e-8),
    dict(case=6, nel=4, ns=3, dt=60.0, integrator="backward_euler", tolerance=1e-6),
    dict(case=6, nel=4, ns=3, dt=300.0, integrator="epi3", tolerance=1e-8),
]
CART = [
    dict(cart=True, case=2, nelx=4, nelz=3, ns=3, dt=0.1, integrator="tvdrk3"),
    dict(cart=True, case=2, nelx=4, nelz=3, ns=3, dt=0.5, integrator="epi2", tolerance=1e-8),
    dict(cart=True, case=2, nelx=3, nelz=4, ns=4, dt=0.5, integrator="ros2", tolerance=1e-8),
]
COMBOS = [
    dict(output_freq=1),
    dict(save_state_freq=1),
    dict(stat_freq=1),
    dict(store_solver_stats=1),
    dict(output_freq=1, save_state_freq=1, stat_freq=1, store_solver_stats=1, store_total_time=1, verbose_solver=1),
    dict(output_freq=2, save_state_freq=3, stat_freq=2),
]


def worker(rec, spec):
    import numpy as np
    from mpi4py import MPI
    from vf import sims

    mon = MPI.COMM_WORLD.Dup()
    N = spec.get("steps", 4)
    for idx, cfg in enumerate(spec["configs"]):
        cfg = dict(cfg)
        off = dict(output_freq=0, save_state_freq=0, stat_freq=0, store_solver_stats=0, store_total_time=0)

        def trajectory(extra, tag):
            out = os.path.join(spec["dir"], f"{mon.size}_{idx}_{tag}")
            sim = sims.make(**dict(cfg, **dict(off, **extra)), output_dir=out, t_end=cfg["dt"] * N)
            states = [np.array(sim.Q).tobytes()]
            real = sim.output.step

            def out_step(Q, step_id):
                before = np.array(Q).tobytes()
                n0 = (sim.output.num_writes, sim.output.num_save_states, sim.output.num_blockstats)
                r = real(Q, step_id)
                n1 = (sim.output.num_writes, sim.output.num_save_states, sim.output.num_blockstats)
                if n1 != n0:
                    rec.count("output_calls_observed")
                if np.array(Q).tobytes() != before:
                    rec.violation(f"output-modifies-state:{_kind(extra)}", f"the state passed to the output of step {step_id} is changed by it "
                                  f"({cfg}, {extra}, {mon.size} processes)")
                return r

            sim.output.step = out_step
            sims.quiet(lambda: _loop(sim, states))
            sims.quiet(sim.output.finalize, 1234.5 if tag else 12.0)
            if sim.integrator.output_manager is not sim.output:
                rec.error("integrator not connected to the output")
            return states, np.array(sim.initial_Q).tobytes()

        def _loop(sim, states):
            init = np.array(sim.initial_Q).tobytes()
            while sim.step():
                states.append(np.array(sim.Q).tobytes())
                if np.array(sim.initial_Q).tobytes() != init:
                    rec.violation("initial-state-modified", f"the stored initial state changed during the run ({cfg})")

        rec.begin(("reference", cfg, mon.size))
        ref, init = trajectory({}, "")
        if len(ref) != N + 1:
            rec.violation("reference-steps", f"{len(ref) - 1} steps instead of {N} ({cfg})")
        twice, _ = trajectory({}, "again")
        for k, (a, b) in enumerate(zip(ref, twice)):
            rec.count("repeat_states_compared")
            if a != b:
                rec.violation(f"not-reproducible:{cfg['integrator']}", f"two identical runs differ at step {k} ({cfg}, {mon.size} processes)")
                break
        for j, extra in enumerate(spec["combos"]):
            rec.begin((cfg, extra, mon.size))
            got, init2 = trajectory(extra, f"x{j}")
            for k, (a, b) in enumerate(zip(ref, got)):
                rec.case(f"{idx}:{j}:{k}:{mon.size}")
                rec.count("states_compared")
                if a != b:
                    rec.violation(f"trajectory:{_kind(extra)}", f"the state at step {k} is not the same with {extra} as without ({cfg}, "
                                  f"{mon.size} processes, rank {mon.rank})")
                    break
            if len(got) != len(ref):
                rec.violation(f"steps:{_kind(extra)}", f"{len(got)} states with {extra}, {len(ref)} without")
    rec.sample({"configs": spec["configs"][:2], "combos": spec["combos"]})


def _kind(extra):
    return "+".join(sorted(extra)) or "none"


def drive(chk):
    me = "checks/c07.py"
    chk.run_worker(me, {"configs": CART, "combos": COMBOS, "dir": chk.scratch, "label": "cart"}, np=1, timeout=200)
    chk.run_worker(me, {"configs": CUBE, "combos": COMBOS, "dir": chk.scratch, "label": "np6"}, np=6, timeout=200)
    chk.run_worker(me, {"configs": CUBE if chk.thorough else CUBE[:1] + CUBE[4:6], "combos": COMBOS[-2:], "dir": chk.scratch, "label": "np24"}, np=24,
                   timeout=200 if not chk.thorough else 900)
    if chk.thorough:
        chk.run_worker(me, {"configs": CUBE, "combos": COMBOS, "dir": chk.scratch, "label": "np6long", "steps": 15}, np=6, timeout=1500)
    chk.require("states_compared", 300)
    chk.require("output_calls_observed", 200)


if __name__ == "__main__":
    driver.main("C07", RULE, drive, worker)
