"""C16: adaptive Runge-Kutta pairs respect their order, the tolerance, the time interval, and report failure."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one adaptive Runge-Kutta method with one random time-dependent system, tolerance, step controller, first step and process "
    "count. Every evaluation of the derivative is traced (its time must lie inside the step under way, the accepted times must advance and "
    "end exactly at the bound), the final state is compared with a reference integration, and single steps of decreasing size must show "
    "the declared order. Systems that blow up or return NaN (everywhere or on a single process) must end as failed. Non-trivial: several accepted steps."
)


def worker(rec, spec):
    import logging
    import warnings
    import numpy as np
    from mpi4py import MPI
    from scipy.integrate import solve_ivp
    from integrators.butcher import METHODS

    logging.disable(logging.CRITICAL)
    mon = MPI.COMM_WORLD.Dup()
    size, rank = mon.size, mon.rank
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    rng = np.random.default_rng([spec["seed"], 16, size])

    class System:
        def __init__(self, seed, rate=1.0):
            r = np.random.default_rng(seed)
            self.m = int(r.integers(8, 14)) if size == 1 else int(r.integers(2, 4))
            n = self.n = self.m * size
            X = r.standard_normal((n, n)) / np.sqrt(n)
            self.L, self.w, self.a, self.c = rate * (X - X.T), r.uniform(1, 5, n), r.uniform(0, 2 * np.pi, n), r.uniform(0.1, 0.6)
            self.y0 = r.standard_normal(n)
            self.t0 = float(r.choice([0.0, 0.0, -1.5, 2.25]))
            self.times = []

        def g(self, t, y):
            return self.L @ y + self.c * np.sin(self.w * t + self.a) * np.cos(np.roll(y, 1)) + 0.3 * np.sin(4 * t)

        def __call__(self, t, y):
            self.times.append(float(t))
            full = np.concatenate(mon.allgather(np.ascontiguousarray(y))) if size > 1 else y
            return self.g(t, full)[rank * self.m: (rank + 1) * self.m]

        def mine(self):
            return self.y0[rank * self.m: (rank + 1) * self.m].copy()

        def exact(self, t1):
            return solve_ivp(self.g, (self.t0, t1), self.y0, method="DOP853", rtol=1e-13, atol=1e-15).y[:, -1]

    def whole(y):
        return np.concatenate(mon.allgather(np.ascontiguousarray(y)))

    def drive_to_end(name, s, S, t0, t1, key, limit=200000):
        """Step to the end with the trace monitor on. The derivative may be asked for inside the step under way only."""
        eps = 1e-12 * max(1.0, abs(t0), abs(t1))
        n = 0
        S.times.clear()
        while s.status == "running":
            before = float(s.t)
            h_first = float(s.h)
            S.times.clear()
            s.step()
            n += 1
            rec.count("rk_steps")
            rec.count("derivative_times", len(S.times))
            after = float(s.t)
            if S.times:
                lo, hi = min(S.times), max(S.times)
                # (a rejected attempt may have tried a longer step, never beyond the bound nor before the current time)
                if lo < before - eps or hi > t1 + eps:
                    rec.violation(f"{name}:times", f"{name} evaluated the derivative at times {lo:.15g}..{hi:.15g} during a step from {before:.15g}, bound {t1} ({key})")
                if s.status != "failed" and abs(S.times[-1] - after) > eps and not any(abs(t - after) <= eps for t in S.times):
                    rec.violation(f"{name}:times-end", f"{name} never evaluated the derivative at the end {after:.15g} of its step ({key})")
            if s.status != "failed" and after <= before:
                rec.violation(f"{name}:no-advance", f"{name} accepted a step from {before!r} to {after!r} ({key})")
                return n
            if n > limit:
                rec.violation(f"{name}:endless", f"{name} still running after {limit} steps ({key})")
                return n
        return n

    names = list(METHODS)
    for name in names:
        M = METHODS[name]
        for it in range(spec["adaptive"]):
            S = System(int(rng.integers(1 << 30)))
            T = float(rng.uniform(1.0, 3.0))
            t1 = S.t0 + T
            tol = float(10.0 ** -rng.integers(3, 10)) if M.order > 3 else float(10.0 ** -rng.integers(3, 8))
            ctl = [None, "deadbeat", "PI3040", "pi4020", "H211PI", "H110", "H211D", "H211B", ""][int(rng.integers(9))]
            first = float(rng.choice([0.25, 0.1, 0.03, 1e-3])) * (t1 - S.t0)
            kw = {}
            if rng.integers(4) == 0:
                kw["max_step"] = T / 7.3
            key = f"T={T:.2f} t0={S.t0} tol={tol:.0e} controller={ctl} first={first:.3g} {kw} n={S.n}"
            rec.begin(f"adaptive {name} {key}")
            y = S.mine()
            given = y.copy()
            s = M(S, S.t0, y, t1, first_step=first, rtol=tol, atol=tol, controller=ctl, **kw)
            n = drive_to_end(name, s, S, S.t0, t1, key)
            counts = mon.allgather((n, s.status, float(s.t)))
            if len(set(counts)) != 1:
                rec.violation(f"{name}:processes", f"{name}: processes took different steps {counts} ({key})")
                continue
            if not np.array_equal(y, given):
                rec.violation(f"{name}:input-modified", f"{name} changed the initial state ({key})")
            got, ref = whole(s.y), S.exact(t1)
            if rank == 0:
                rec.case(f"adaptive|{name}|{key}", nontrivial=n > 2)
                err = float(np.abs(got - ref).max())
                if os.environ.get("VF_DEBUG"):
                    print("C16", name, key, n, "%.1f" % (err / tol), s.failed_steps)
                if s.status != "finished" or float(s.t) != t1:
                    rec.violation(f"{name}:end", f"{name} ended with status {s.status} at {float(s.t)!r} instead of {t1!r} ({key})")
                elif not err <= spec["factor"] * tol + 1e-11:
                    rec.violation(f"{name}:tolerance", f"{name}: error {err:.3e} for a tolerance of {tol:.0e} after {n} steps ({key})")
                if "max_step" in kw and n < 7:
                    rec.violation(f"{name}:max-step", f"{name} covered the interval in {n} steps although steps were limited to 1/7.3 of it ({key})")
                rec.count("adaptive_runs")
                rec.sample(f"{name} {key}: {n} steps, error/tol {err / tol:.2g}")
        # declared order, from single steps
        pool = []
        for it in range(spec["order"]):
            S = System(int(rng.integers(1 << 30)), 0.5)
            S.w *= 0.5
            errs = []
            H = (0.4, 0.2, 0.1) if M.order < 8 else (0.6, 0.4, 0.25) if M.order < 10 else (0.8, 0.55, 0.4) if M.order < 12 else (1.1, 0.8, 0.6)
            rec.begin(f"order {name}")
            for h in H:
                s = M(S, S.t0, S.mine(), S.t0 + h, first_step=(S.t0 + h) - S.t0, rtol=1e9, atol=1e9)
                s.step()
                errs.append(float(np.linalg.norm(whole(s.y) - S.exact(S.t0 + h))))
                if s.status != "finished":
                    rec.violation(f"{name}:one-step", f"{name} did not finish a single step over the whole interval (status {s.status})")
            slopes = [float(np.log(a / b) / np.log(ha / hb)) for a, b, ha, hb in zip(errs, errs[1:], H, H[1:]) if a > 1e-11 and b > 1e-12]
            if rank == 0:
                rec.case(f"order|{name}|{it}", nontrivial=bool(slopes))
                rec.count("order_slopes", len(slopes))
                pool += slopes
                if os.environ.get("VF_DEBUG"):
                    print("C16 order", name, M.order, ["%.1e" % e for e in errs], ["%.2f" % x for x in slopes])
                if not slopes and not errs[-1] < 1e-12:
                    rec.violation(f"{name}:order", f"{name}: errors of single steps {H}: {['%.2e' % e for e in errs]}")
        if os.environ.get("VF_DEBUG") and rank == 0:
            print("C16 median", name, M.order, np.median(pool), len(pool))
        if rank == 0 and len(pool) >= 4 and not np.median(pool) > M.order + (0.35 if M.order < 8 else 0.1 if M.order < 10 else -0.5):
            rec.violation(f"{name}:order-median", f"{name} declares order {M.order}; orders observed over single steps {['%.2f' % x for x in sorted(pool)]}")
        # failures are reported
        alone = int(rng.integers(size))  # on several processes also: one process only gets an invalid value
        for kind in ("blowup", "nan") + (("nan-on-one",) if size > 1 else ()):
            S = System(1)

            def bad(t, y):
                S.times.append(float(t))
                if kind == "nan":
                    return np.full_like(y, np.nan) if t > 0.5 else -y
                if kind == "nan-on-one":
                    r = 0.1 - y
                    if t > 0.5 and rank == alone:
                        r[-1] = np.nan
                    return r
                return 1.0 + y * y  # tan(t): infinite at pi/2

            rec.begin(f"failure {kind} {name}")
            s = M(bad, 0.0, np.zeros(3), 2.0, first_step=0.05, rtol=1e-5, atol=1e-5)
            drive_to_end(name, s, S, 0.0, 2.0, kind)
            rec.case(f"failure|{name}|{kind}")
            rec.count("failures_seen", int(s.status == "failed"))
            if s.status != "failed":
                rec.violation(f"{name}:failure-hidden", f"{name} reports '{s.status}' at t={s.t} for a solution that does not exist beyond it ({kind})")
            elif not np.all(np.isfinite(s.y)):
                rec.violation(f"{name}:failure-state", f"{name} failed but left a non-finite state as accepted ({kind})")


def drive(chk):
    me = "checks/c16.py"
    t = chk.thorough
    chk.run_worker(me, {"adaptive": 60 if t else 8, "order": 24 if t else 8, "factor": 200, "label": "np1"}, np=1, timeout=2400 if t else 300)
    chk.run_worker(me, {"adaptive": 10 if t else 2, "order": 4, "factor": 200, "label": "np6"}, np=6, timeout=2400 if t else 300)
    chk.require("adaptive_runs", 60)
    chk.require("order_slopes", 20)
    chk.require("failures_seen", 18)


if __name__ == "__main__":
    driver.main("C16", RULE, drive, worker)
