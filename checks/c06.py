"""C06: a run covers exactly [start, t_end] with the requested step, and outputs at exactly the requested steps."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one complete real run with a generated (dt, t_end, start step, output / checkpoint / statistics frequencies): the "
    "monitor records every step length given to the integrator, the clock and step number after each step, and every file, "
    "netCDF record and statistics block produced, and compares them with exact decimal arithmetic. Non-trivial: at least "
    "one step is taken."
)


def expected_steps(dt, t_end):
    """Exact number of steps of length dt needed to reach t_end (decimal strings)."""
    from fractions import Fraction

    q = Fraction(t_end) / Fraction(dt)
    return -((-q.numerator) // q.denominator)


def observe(rec, sim, dt_s, t_end_s, s, still, call, key):
    """Run one simulation to its end and compare what it did with the specification. With `still`, the state is put
    back after every (real) step, so that any step length can be used without the flow blowing up."""
    import contextlib, io, re

    dt, t_end = float(dt_s), float(t_end_s)
    lengths, clock = [], []
    real = sim.integrator.step

    def step(Q, h, *a, **k):
        lengths.append(float(h))
        r = real(Q.copy(), h, *a, **k)
        return Q.copy() if still else r

    sim.integrator.step = step
    real_out = sim.output.step

    def out_step(Q, step_id):
        clock.append((int(step_id), float(sim.t)))
        return real_out(Q, step_id)

    sim.output.step = out_step
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if call == "run":
            sim.run()
        else:
            guard = 0
            while sim.step():
                guard += 1
                if guard > 20000:
                    rec.violation("endless", f"{key}: the run does not stop")
                    break
    n = max(expected_steps(dt_s, t_end_s) - s, 0)
    rec.count("steps_observed", len(lengths))
    if len(lengths) != n:
        rec.violation("step-count", f"{key}: {len(lengths)} steps instead of {n} (last lengths {lengths[-3:]})")
        return buf.getvalue()
    for i, h in enumerate(lengths):
        last = i == n - 1
        want = t_end - (s + n - 1) * dt if last else dt
        if abs(h - want) > 1e-9 * dt:
            rec.violation("last-step-length" if last else "step-length", f"{key}: step {i + 1} of {n} has length {h!r} instead of {want!r}")
            break
    for i, (sid, t) in enumerate(clock):
        want = t_end if i == n - 1 else (s + i + 1) * dt
        if sid != s + i + 1:
            rec.violation("step-number", f"{key}: step number {sid} instead of {s + i + 1}")
            break
        if abs(t - want) > 1e-9 * max(dt, 1e-3 * t_end):
            rec.violation("clock", f"{key}: time {t!r} after step {sid} instead of {want!r}")
            break
    if n and sim.t != t_end:
        rec.violation("end-time", f"{key}: the run ends at {sim.t!r} instead of {t_end!r}")
    if n and abs(sim.integrator.sim_time - t_end) > 1e-9 * t_end:
        rec.violation("integrator-clock", f"{key}: the integrator's clock ends at {sim.integrator.sim_time!r} instead of {t_end!r}")
    # nothing more happens afterwards
    Q = sim.Q.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        again = sim.step()
    if again or len(lengths) != n or sim.Q.tobytes() != Q.tobytes():
        rec.violation("after-end", f"{key}: a step is still taken after the end")
    return buf.getvalue()


def gen(rng, i):
    """(dt, t_end) as decimal strings."""
    digits = int(rng.integers(0, 4))
    base = int(rng.integers(1, 10 ** min(digits + 1, 3)))
    from decimal import Decimal

    dt = Decimal(base).scaleb(-digits)
    k = int(rng.choice([1, 2, 3, 7, 10, 11, 13, 30, 60, 100])) if i % 5 else int(rng.integers(1, 300))
    mode = i % 4
    t_end = dt * k
    if mode == 1:
        t_end += dt * Decimal(str(round(float(rng.uniform(0.01, 0.99)), 3)))
    elif mode == 2 and k > 1:
        t_end = dt * k - dt * Decimal("0.001")
    elif mode == 3 and i % 3 == 0:  # a last step that is short, but much longer than rounding errors
        t_end = dt * k + dt * Decimal("1e-6") * int(rng.integers(1, 50))
    return str(dt), str(t_end)


def worker(rec, spec):
    import re, shutil
    import numpy as np
    from mpi4py import MPI
    from vf import sims

    mon = MPI.COMM_WORLD.Dup()
    rng = np.random.default_rng(spec["seed"] * 13 + 5)
    if spec["what"] == "cart":
        base = dict(cart=True, case=2, nelx=1, nelz=1, ns=2, integrator="euler1", domain=(0.0, 1000.0, 0.0, 1000.0))
        special = [("0.1", "1.1"), ("0.1", "1"), ("0.3", "0.9"), ("0.7", "7"), ("0.1", "0.05"), ("0.1", "100"), ("1", "0"), ("3", "10"),
                   ("0.01", "1.15"), ("0.6", "1.8"), ("0.05", "0.35"), ("1800", "1814400"), ("0.2", "0.6")]
        pairs = special + [gen(rng, i) for i in range(spec["n"])]
        for i, (dt, t_end) in enumerate(pairs):
            out = os.path.join(spec["out"], "o")
            shutil.rmtree(out, ignore_errors=True)
            n = expected_steps(dt, t_end)
            sfreq = int(rng.choice([0, 1, 2, 3, 5, 7])) if n < 200 else 0
            bfreq = int(rng.choice([0, 1, 2, 4, 9])) if n < 200 else 0
            call = "run" if i % 2 else "step"
            key = f"dt={dt} t_end={t_end} save={sfreq} stat={bfreq} {call}"
            rec.begin(key)
            kw = dict(base, dt=dt, t_end=t_end, output_dir=out, save_state_freq=sfreq, stat_freq=bfreq, store_total_time=1)
            import io, contextlib
            pre = io.StringIO()
            with contextlib.redirect_stdout(pre):
                from simulation.simulation import Simulation
                sim = Simulation(sims.config(**kw), MPI.COMM_WORLD)
            text = observe(rec, sim, dt, t_end, 0, True, call, key)
            rec.case(f"{dt}:{t_end}:{sfreq}:{bfreq}:{call}", nontrivial=n > 0)
            rec.count("runs_observed")
            files = sorted(f for f in os.listdir(out) if f.startswith("state_vector"))
            got = [int(f.split(".")[-2]) for f in files]
            want = [k for k in range(n + 1) if sfreq > 0 and k % sfreq == 0]
            if got != want:
                rec.violation("checkpoint-steps", f"{key}: checkpoints for steps {got} instead of {want}")
            got = [int(x) for x in re.findall(r"Blockstats for timestep (\d+)", pre.getvalue() + text)]
            want = [k for k in range(n + 1) if bfreq > 0 and k % bfreq == 0]
            if got != want:
                rec.violation("statistics-steps", f"{key}: statistics for steps {got[:20]} instead of {want[:20]}")
            # restart part way, and go again from the start with run()
            if got is not None and sfreq > 0 and n > sfreq and i % 3 == 0:
                s = sfreq * int(rng.integers(1, n // sfreq + 1))
                sf, bf = int(rng.choice([0, 1, 2, 3, 4])), int(rng.choice([0, 1, 2, 3, 5]))
                mark = {f: os.stat(os.path.join(out, f)).st_mtime_ns for f in os.listdir(out)}
                pre = io.StringIO()
                with contextlib.redirect_stdout(pre):
                    r = Simulation(sims.config(**dict(kw, starting_step=s, save_state_freq=sf, stat_freq=bf)), MPI.COMM_WORLD)
                text = pre.getvalue() + observe(rec, r, dt, t_end, s, True, call, key + f" restart={s} save={sf} stat={bf}")
                wrote = sorted(int(f.split(".")[-2]) for f in os.listdir(out) if f.startswith("state_vector")
                               and os.stat(os.path.join(out, f)).st_mtime_ns != mark.get(f))
                want = [k for k in range(s, n + 1) if sf > 0 and k % sf == 0]
                if wrote != want:
                    rec.violation("checkpoint-steps:restart", f"{key} restarted at {s} with save={sf}: checkpoints written for steps {wrote} instead of {want}")
                got = [int(x) for x in re.findall(r"Blockstats for timestep (\d+)", text)]
                want = [k for k in range(s, n + 1) if bf > 0 and k % bf == 0]
                if got != want:
                    rec.violation("statistics-steps:restart", f"{key} restarted at {s} with stat={bf}: statistics for steps {got[:20]} instead of {want[:20]}")
                rec.count("restarted_runs_observed")
                rec.case(f"{dt}:{t_end}:restart{s}")
            if n >= 3 and n < 60 and i % 4 == 1:
                r = sims.make(**dict(kw, save_state_freq=0, stat_freq=0))
                orig, t0 = r.integrator.step, r.integrator.sim_time
                r.integrator.step = lambda Q, h: (orig(Q.copy(), h), Q.copy())[1]
                for _ in range(2):
                    sims.quiet(r.step)
                del r.integrator.step
                r.integrator.sim_time = t0
                observe(rec, r, dt, t_end, 0, True, "run", key + " run-after-steps")
                rec.count("reruns_observed")
        rec.sample({"pairs": pairs[:30]})
    else:
        import netCDF4

        for i in range(spec["n"]):
            dt, t_end = [("100", "500"), ("0.1", "1.1"), ("60", "150"), ("7.5", "37.4"), ("0.3", "0.9"), ("250", "1000")][i % 6]
            ofreq, sfreq, bfreq = [(1, 2, 1), (2, 3, 3), (1, 1, 0), (3, 2, 2), (1, 0, 1), (2, 3, 0)][i % 6]
            n = expected_steps(dt, t_end)
            key = f"np={mon.size} dt={dt} t_end={t_end} output={ofreq} save={sfreq} stat={bfreq}"
            rec.begin(key)
            out = os.path.join(spec["dir"], f"n{mon.size}_{i}")
            case = dict(case=31, nel=4, ns=2, nev=1) if dt in ("0.1", "0.3") else dict(case=[5, 6, 2][i % 3], nel=4, ns=2)
            kw = dict(case, dt=dt, t_end=t_end, integrator="tvdrk3", output_dir=out, output_freq=ofreq, save_state_freq=sfreq, stat_freq=bfreq)
            import contextlib, io
            pre = io.StringIO()
            with contextlib.redirect_stdout(pre):
                from simulation.simulation import Simulation
                sim = Simulation(sims.config(**kw), MPI.COMM_WORLD)
            text = pre.getvalue() + observe(rec, sim, dt, t_end, 0, False, "run", key)
            rec.case(key)
            rec.count("runs_observed")
            mon.barrier()
            def check(sim, text, s, ofreq, want_files, what):
                """The records, checkpoints and statistics of a run that started at step s."""
                rec.count("files_checked")
                with netCDF4.Dataset(os.path.join(out, sim.config.base_output_file + ".nc")) as d:
                    got = [float(x) for x in d["time"][:]]
                    units = d["time"].units
                want = [min(k * float(dt), float(t_end)) for k in range(s, n + 1) if k % ofreq == 0]
                if len(got) != len(want) or any(abs(a - b) > 1e-9 * max(b, 1.0) for a, b in zip(got, want)):
                    rec.violation("netcdf-times", f"{what}: records at times {got} instead of {want}")
                if not units.startswith("seconds"):
                    rec.violation("netcdf-time-units", f"times in seconds are labelled '{units}'")
                steps = [int(f.split(".")[-2]) for f in sorted(os.listdir(out)) if f.startswith("state_vector")]
                if steps != want_files:
                    rec.violation("checkpoint-steps", f"{what}: checkpoints for steps {steps} instead of {want_files}")
                if case["case"] < 10:
                    got = [int(x) for x in re.findall(r"Blockstats for timestep (\d+)", text)]
                    want = [k for k in range(s, n + 1) if bfreq > 0 and k % bfreq == 0]
                    if got != want:
                        rec.violation("statistics-steps", f"{what}: statistics for steps {got} instead of {want}")

            saved = [k for k in range(n + 1) if sfreq > 0 and k % sfreq == 0]
            if mon.rank == 0:
                check(sim, text, 0, ofreq, saved, key)
            mon.barrier()
            if len(saved) > 1:  # the same again from a checkpoint, with another output frequency
                s, of = saved[1 + i % (len(saved) - 1)], 1 + i % 2
                again = key + f" restarted at {s} with output={of}"
                rec.begin(again)
                pre = io.StringIO()
                with contextlib.redirect_stdout(pre):
                    sim = Simulation(sims.config(**dict(kw, starting_step=s, output_freq=of)), MPI.COMM_WORLD)
                text = pre.getvalue() + observe(rec, sim, dt, t_end, s, False, "run", again)
                rec.case(again)
                mon.barrier()
                if mon.rank == 0:
                    rec.count("restarted_files_checked")
                    check(sim, text, s, of, saved, again)
                mon.barrier()


def drive(chk):
    me = "checks/c06.py"
    chk.run_worker(me, {"what": "cart", "n": 600 if chk.thorough else 110, "label": "cart"}, np=1, timeout=250 if not chk.thorough else 1500)
    d = os.path.join(chk.scratch, "nc")
    os.makedirs(d)
    chk.run_worker(me, {"what": "nc", "n": 6, "dir": d, "label": "np6"}, np=6, timeout=120)
    chk.run_worker(me, {"what": "nc", "n": 6 if chk.thorough else 3, "dir": d, "label": "np24"}, np=24, timeout=150)
    chk.require("runs_observed", 100)
    chk.require("restarted_runs_observed", 5)
    chk.require("files_checked", 6)
    chk.require("restarted_files_checked", 4)


if __name__ == "__main__":
    driver.main("C06", RULE, drive, worker)
