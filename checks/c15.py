"""C15: every time integrator advances the equations it is given, at its own order of accuracy."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one integrator with one random non-linear system: the real integrator is run with three step sizes (optionally with a "
    "change of step size on the way, on one or several processes, with each Krylov/linear solver) and the states are compared with a "
    "reference trajectory of the same system computed to 1e-13 by another code; the errors must shrink at the integrator's order. "
    "Further cases: linear systems with steps far beyond the explicit limit (exponential integrators are exact), equilibria, and the "
    "caller's state left untouched. Non-trivial: the state changes and the coarsest error is above the rounding floor."
)

ORDER = {"euler1": 1, "tvdrk3": 3, "epi2": 2, "epi3": 3, "epi4": 4, "epi5": 5, "epi6": 6, "epi_stiff3": 3, "epi_stiff4": 4, "epi_stiff5": 5,
         "epi_stiff6": 6, "srerk3": 3, "srerk4": 4, "srerk5": 5, "srerk6": 6, "ros2": 2, "ros2_gcrot": 2, "rosexp2": 2, "rosexp2_full": 2, "partrosexp2": 2,
         "crank_nicolson": 2, "backward_euler": 1, "bdf2": 2, "imex2": 2, "strang_ab": 2, "strang_ba": 2}
EXPO = [k for k in ORDER if k.startswith(("epi", "srerk"))]
IMPLICIT_TOL = 1e-12

MULTISTEP = ("epi3", "epi4", "epi5", "epi6", "epi_stiff3", "epi_stiff4", "epi_stiff5", "epi_stiff6", "bdf2")
# errors after 64 steps of a box simulation: several times what was observed
CONFIGURED = {"euler1": 1, "tvdrk3": 0.001, "epi2": 0.003, "epi3": 0.003, "epi4": 0.004, "epi5": 0.005, "epi6": 0.006, "epi_stiff3": 0.003, "epi_stiff4": 0.004, "epi_stiff5": 0.005,
              "epi_stiff6": 0.006, "srerk3": 0.0003, "srerk6": 4e-05, "ros2": 0.016, "rosexp2": 0.016, "backward_euler": 0.8, "bdf2": 0.06, "crank_nicolson": 0.016}


def worker(rec, spec):
    import warnings
    import numpy as np
    from mpi4py import MPI
    from scipy.integrate import solve_ivp
    import integrators as I
    from vf import sims

    mon = MPI.COMM_WORLD.Dup()
    size, rank = mon.size, mon.rank
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")

    class System:
        """q' = fe(q) + fi(q); every process holds an equal share of q, in some shape."""

        def __init__(self, seed, kind="mild", local=None):
            r = np.random.default_rng(seed)
            self.shape = local or [(4, 9), (2, 3, 6), (36,), (3, 3, 2, 2)][int(r.integers(4))]
            m = int(np.prod(self.shape))
            n = self.n = m * size
            self.me = slice(rank * m, (rank + 1) * m)
            X = r.standard_normal((n, n)) / np.sqrt(n)
            self.L = (X - X.T) * r.uniform(0.5, 1.2) - r.uniform(0, 0.5) * np.eye(n)
            self.c, self.k, self.b = r.uniform(0.2, 0.7), r.uniform(0.05, 0.3), 0.3 * r.standard_normal(n)
            self.linear = kind == "linear"
            if self.linear:
                self.L = self.L * r.uniform(5, 20) - np.eye(n) * r.uniform(0, 10)
                self.c = self.k = 0.0
            self.q0 = r.standard_normal(n) * 0.7
            self.evals = 0

        def gfe(self, v):
            return self.c * np.sin(np.roll(v, 1)) * v + self.b

        def gfi(self, v):
            return self.L @ v - self.k * v * v * v

        def g(self, v):
            return self.gfe(v) + self.gfi(v)

        def _wrap(self, fun, q):
            self.evals += 1
            if q.size != self.me.stop - self.me.start:
                raise AssertionError("state of wrong size passed to the tendency")
            v = np.ascontiguousarray(q).ravel()
            full = np.concatenate(mon.allgather(v)) if size > 1 else v
            return fun(full)[self.me].reshape(q.shape)

        def fe(self, q):
            return self._wrap(self.gfe, q)

        def fi(self, q):
            return self._wrap(self.gfi, q)

        def f(self, q):
            return self._wrap(self.g, q)

        def exact(self, v, t):
            if t == 0:
                return v.copy()
            return solve_ivp(lambda s, y: self.g(y), (0, t), v, method="DOP853", rtol=1e-13, atol=1e-15).y[:, -1]

        def mine(self, v):
            return np.ascontiguousarray(v[self.me]).reshape(self.shape)

        def whole(self, q):
            return np.concatenate(mon.allgather(np.ascontiguousarray(q).ravel()))

    class Exact:
        """Start-up values for the multistep methods."""

        def __init__(self, S):
            self.S = S

        def step(self, q, dt):
            return self.S.mine(self.S.exact(self.S.whole(q), dt))

    def make(name, S, P, start="exact"):
        kw = {"init_method": Exact(S)} if start == "exact" else {}
        if start.startswith("sub"):
            kw = {"init_substeps": int(start[3:])}
            if name == "bdf2":
                return I.Bdf2(P, S.f, **kw)
        if name.startswith("epi_stiff"):
            return I.EpiStiff(P, int(name[-1]), S.f, **kw)
        if name.startswith("epi"):
            return I.Epi(P, int(name[-1]), S.f, **(kw if name != "epi2" else {}))
        if name.startswith("srerk"):
            return I.Srerk(P, int(name[-1]), S.f)
        return {
            "euler1": lambda: I.Euler1(P, S.f), "tvdrk3": lambda: I.Tvdrk3(P, S.f), "ros2": lambda: I.Ros2(P, S.f),
            "ros2_gcrot": lambda: I.Ros2(P, S.f), "rosexp2": lambda: I.RosExp2(P, S.f, S.fi),
            "rosexp2_full": lambda: I.RosExp2(P, S.f, S.f), "partrosexp2": lambda: I.PartRosExp2(P, S.f, S.fi),
            "crank_nicolson": lambda: I.CrankNicolson(P, S.f), "backward_euler": lambda: I.BackwardEuler(P, S.f), "bdf2": lambda: I.Bdf2(P, S.f),
            "imex2": lambda: I.Imex2(P, S.fe, S.fi),
            "strang_ab": lambda: I.StrangSplitting(P, I.Epi(P, 2, S.fe), I.Ros2(P, S.fi)),
            "strang_ba": lambda: I.StrangSplitting(P, I.Ros2(P, S.fi), I.Epi(P, 2, S.fe)),
        }[name]()

    def advance(name, it, S, q, dt, key):
        if rng.random() < 0.3:
            q = np.asfortranarray(q)  # the values, not their order in memory, are the state
        given = q.copy()
        out = sims.quiet(it.step, q, dt)
        rec.count("steps")
        if not np.array_equal(given, q):
            rec.violation(f"{name}:input-modified", f"{name} changed the state it was given ({key})")
        if np.shape(out) != S.shape:
            rec.violation(f"{name}:shape", f"{name} returned shape {np.shape(out)} for a state of shape {S.shape} ({key})")
            return None
        return out

    def steps_of(N, pattern, T):
        """Sequence of step sizes for refinement level N, with a total time T."""
        if pattern == "constant":
            return [T / N] * N
        if pattern == "both":
            return [T / N] * (N // 4) + [T / (2 * N)] * (N // 2) + [T / N] * (N // 2)
        h = [T / N] * (N // 2) + [T / (2 * N)] * N  # the step is halved half-way
        return h if pattern == "halved" else h[::-1]  # "doubled"

    def order(name, S, P, T, pattern, levels, key, nominal, start="exact"):
        errs = []
        ref = S.exact(S.q0, T)
        for N in levels:
            it = make(name, S, P, start)
            q = S.mine(S.q0)
            for h in steps_of(N, pattern, T):
                q = advance(name, it, S, q, h, key)
                if q is None:
                    return
            errs.append(float(np.linalg.norm(S.whole(q) - ref)))
        rec.count("trajectories", len(levels))
        if rank == 0:
            slopes = [float(np.log2(a / b)) if a > 0 and b > 0 else np.nan for a, b in zip(errs, errs[1:])]
            floor = spec.get("floor", 4e-11)
            ok = all(e == e and e < 1e3 for e in errs) and (errs[-1] < floor or max(slopes) > nominal - (0.45 if nominal < 5 else 0.7) and (slopes[-1] > nominal - 0.8))
            rec.case(f"order|{name}|{key}|{pattern}|{start}", nontrivial=errs[0] > floor)
            if os.environ.get("VF_DEBUG"):
                print("C15", name, nominal, key, pattern, start, ["%.2e" % e for e in errs], ["%.2f" % s for s in slopes])
            rec.sample(f"{name} {pattern} {key}: errors {['%.1e' % e for e in errs]} orders {['%.2f' % s for s in slopes]}")
            if not ok:
                rec.violation(f"{name}:order:{pattern}:{start}", f"{name} should be accurate to order {nominal}: errors {['%.3e' % e for e in errs]} for "
                              f"{[len(steps_of(N, pattern, T)) for N in levels]} steps (observed orders {['%.2f' % s for s in slopes]}; {key})")

    rng = np.random.default_rng([spec["seed"], 15, spec["np"]])
    names = spec["names"]
    for it in range(spec["systems"]):
        S = System(int(rng.integers(1 << 30)))
        T = float(rng.uniform(0.7, 1.0))
        for name in names if it == 0 or spec["tier"] == "thorough" else list(rng.permutation(names))[: len(names) // 2]:
            name = str(name)
            nominal = ORDER[name]
            levels = (16, 32, 64) if name.startswith("epi") and nominal > 3 else (8, 16, 32)
            jac = "complex"
            es = "kiops"
            kw = {}
            if name == "ros2_gcrot":
                kw["linear_solver"] = "gcrot"
            P = sims.config(case=6, tolerance=IMPLICIT_TOL, exponential_solver=es, jacobian_method=jac, gmres_restart=int(rng.choice([5, 12, 30])), **kw)
            pattern = ["constant", "halved", "doubled", "both"][int(rng.integers(4))] if name not in ("imex2",) else "constant"
            if it == 0 and name in MULTISTEP:
                pattern = "both"
            key = f"system {it} n={S.n} shape={S.shape} T={T:.2f}"
            rec.begin(f"order {name} {pattern} {key}")
            Sn = S
            if name == "ros2_gcrot":  # this solver takes the operator to be linear, and Ros2 gives it finite differences
                Sn = System(int(rng.integers(1 << 30)))
                Sn.c = Sn.k = 0.0
            order(name, Sn, P, T, pattern, levels, key, nominal)
            if name in ("epi3", "epi4", "epi_stiff3", "epi_stiff5") and it == 0:
                order(name, S, P, T, "constant", levels, key, 3 if nominal > 3 else nominal, start="own")
            if name in MULTISTEP and (it == 0 or spec["tier"] == "thorough"):  # started by shorter steps, as simulations do
                order(name, S, P, T, str(rng.choice(["constant", "halved"])), levels, key, 3 if nominal > 3 else nominal, start=f"sub{int(rng.choice([2, 3, 10]))}")
    # the integrators as simulations build them from their name, on the real tendencies of a box in strong motion
    for name in spec.get("configured", ()):
        box = dict(case=2, cart=True, nelx=3, nelz=3, ns=3, tolerance=1e-9, integrator=name)
        T, errs = 0.8, []
        sim = sims.make(dt=T / 8, **box)
        q0 = sim.Q.copy()
        r = np.random.default_rng([spec["seed"], 16])
        q0[0] *= 1 + 0.1 * r.uniform(-1, 1, q0[0].shape)
        q0[1] = q0[0] * 60 * r.uniform(-1, 1, q0[0].shape)
        q0[2] = q0[0] * 60 * r.uniform(-1, 1, q0[0].shape)
        q0[3] *= 1 + 0.1 * r.uniform(-1, 1, q0[0].shape)
        ref = solve_ivp(lambda t, v: sim.rhs.full(v.reshape(q0.shape)).ravel(), (0, T), q0.ravel(), method="DOP853", rtol=1e-10, atol=1e-7).y[:, -1].reshape(q0.shape)
        scale = np.abs(ref - q0).reshape(q0.shape[0], -1).max(axis=1).reshape((-1,) + (1,) * (q0.ndim - 1))
        rec.begin(f"configured {name}")
        for N in (16, 64):
            sim = sims.make(dt=T / N, **box)
            q = q0.copy()
            for _ in range(N):
                q = sims.quiet(sim.integrator.step, q, T / N)
                rec.count("steps")
            errs.append(float(np.abs((q - ref) / scale).max()))
        rec.count("configured")
        rec.case(f"configured|{name}")
        if os.environ.get("VF_DEBUG"):
            print("C15 configured", name, ["%.2e" % e for e in errs])
        # the fluxes are not smooth, which limits the order that can be observed
        if not (errs[1] <= CONFIGURED[name] and errs[1] <= errs[0] * 0.6):
            rec.violation(f"{name}:configured", f"time integrator {name} of a simulation: errors {errs[0]:.2e} and {errs[1]:.2e} (relative to the change) with 16 and 64 steps, accepted {CONFIGURED[name]:.0e}")
    # every Krylov variant, complex step or finite differences, through the same multistep integrator
    for i, es in enumerate(spec["solvers"]):
        S = System(int(rng.integers(1 << 30)))
        name = ["epi2", "epi3", "epi4"][int(rng.integers(3))]
        jac = "complex" if i % 3 else "fd"
        # the non-robust variants are exercised at the tolerances they support (see C13)
        P = sims.config(case=6, tolerance=1e-9, exponential_solver=es, jacobian_method=jac)
        T, N = 0.5, 4
        it = make(name, S, P)
        itk = make(name, S, sims.config(case=6, tolerance=1e-12, exponential_solver="kiops", jacobian_method="complex"))
        q, qk = S.mine(S.q0), S.mine(S.q0)
        rec.begin(f"solver {es} {name}")
        for _ in range(N):
            q = advance(name, it, S, q, T / N, es)
            qk = advance(name, itk, S, qk, T / N, es)
        d = float(np.linalg.norm(S.whole(q) - S.whole(qk)))
        bound = 2e-4 if jac == "fd" else 1e-7
        rec.count("solver_variants")
        if rank == 0:
            rec.case(f"variant|{es}|{name}|{jac}|{it}")
            if os.environ.get("VF_DEBUG"):
                print("C15 variant", es, name, jac, d)
            if not d <= bound:
                rec.violation(f"variant:{es}", f"{name} with the {es} solver ({jac} Jacobian) differs by {d:.3e} from the same integrator with the reference solver")
    # the adaptive Runge-Kutta evaluation of the exponential (its own relative tolerance is 1e-3)
    for meth in spec["exode"]:
        S = System(int(rng.integers(1 << 30)))
        ctl = str(rng.choice(["deadbeat", "pi3040", "h211b", "h110"]))
        P = sims.config(case=6, tolerance=1e-7, exponential_solver="exode", exode_method=meth, exode_controller=ctl)
        K = sims.config(case=6, tolerance=1e-12, exponential_solver="kiops")
        it, itk = make("epi2", S, P), make("epi2", S, K)
        q = S.mine(S.q0)
        rec.begin(f"exode {meth}")
        for k in range(3):
            a = S.whole(advance("epi2", it, S, q, 0.3, meth))
            b = S.whole(advance("epi2", itk, S, q, 0.3, meth))
            d, s = float(np.linalg.norm(a - b)), float(np.linalg.norm(b - S.whole(q)))
            rec.count("solver_variants")
            if rank == 0:
                if os.environ.get("VF_DEBUG"):
                    print("C15 exode", meth, ctl, d / s)
                if not d <= 2e-2 * s:
                    rec.violation(f"exode:{meth}", f"with the adaptive method {meth}/{ctl} the increment is off by {d / s:.3e} of its size")
            q = S.mine(b)
        rec.case(f"exode|{meth}|{ctl}")
    # linear systems: exponential integrators are exact for any step
    for k in range(spec["linear"]):
        S = System(int(rng.integers(1 << 30)), "linear")
        for name in [n for n in EXPO if n in names]:
            P = sims.config(case=6, tolerance=1e-11, exponential_solver="kiops")
            it = make(name, S, P)
            q = S.mine(S.q0)
            h = float(rng.uniform(0.2, 1.0))
            rec.begin(f"linear {name}")
            for _ in range(4):
                q = advance(name, it, S, q, h, "linear")
            ref = S.exact(S.q0, 4 * h)
            d = float(np.linalg.norm(S.whole(q) - ref))
            rec.count("linear_exact")
            rec.case(f"linear|{name}|{k}")
            if os.environ.get("VF_DEBUG"):
                print("C15 linear", name, h, d)
            if not d <= 2e-8 * max(1.0, np.linalg.norm(ref)):
                rec.violation(f"{name}:linear", f"{name} is off by {d:.3e} on a linear system with step {h:.2f} (norm of the Jacobian {np.linalg.norm(S.L, 2):.1f})")
    # equilibria are kept
    for k in range(spec["equilibria"]):
        S = System(int(rng.integers(1 << 30)))
        v = S.q0
        S.b = S.b - S.g(v)
        for name in names:
            if name.startswith(("strang", "partrosexp2", "ros2_gcrot")):
                continue  # split parts are not in equilibrium
            P = sims.config(case=6, tolerance=1e-11)
            it = make(name, S, P)
            q = S.mine(v)
            rec.begin(f"equilibrium {name}")
            for _ in range(3):
                q = advance(name, it, S, q, 0.3, "equilibrium")
            d = float(np.linalg.norm(S.whole(q) - v))
            rec.count("equilibria")
            rec.case(f"equilibrium|{name}|{k}")
            if not d <= (1e-4 if name == "imex2" else 1e-8):
                rec.violation(f"{name}:equilibrium", f"{name} moves a state at rest by {d:.3e}")


def drive(chk):
    me = "checks/c15.py"
    t = chk.thorough
    sol = ["pmex", "kiops", "pmex_ne", "cwy_1s", "cwy_ne", "cwy_ne1s", "icwy_1s", "icwy_ne", "icwy_ne1s", "icwy_neiop", "kiops_ne", "pmex_1s", "pmex_ne1s"]

    base = {"names": list(ORDER), "solvers": sol, "exode": [], "np": 1, "label": "np1"}
    chk.run_worker(me, dict(base, systems=8 if t else 2, linear=4 if t else 1, equilibria=4 if t else 1, exode=ex_list(chk) if t else ex_list(chk)[:4],
                            configured=list(CONFIGURED), solvers=sol * (3 if t else 1)), np=1, timeout=2400 if t else 400)
    names6 = [n for n in ORDER if n != "ros2_gcrot"]  # see known-findings.jsonl (C30): gcrot works on one process only
    if not t:
        names6 = ["tvdrk3", "epi4", "epi_stiff4", "srerk3", "ros2", "rosexp2", "partrosexp2", "crank_nicolson", "bdf2", "imex2"]
    chk.run_worker(me, dict(base, names=names6, systems=2 if t else 1, linear=1, equilibria=1, np=6, label="np6", solvers=["kiops", "pmex"] if not t else sol), np=6,
                   timeout=2400 if t else 400)
    chk.require("trajectories", 60)
    chk.require("linear_exact", 10)
    chk.require("equilibria", 20)
    chk.require("configured", len(CONFIGURED))


def ex_list(chk):
    import random

    names = ["ARK3(2)4L[2]SA-ERK", "RK23", "DP5(4)", "RK45", "CK5(4)", "MERSON4"]
    try:
        from vf import env as venv
        import json

        d = json.load(open(os.path.join(venv.REPO, "config", "config-format.json")))
        for sec in d["sections"]:
            for f in sec["fields"]:
                if f["name"] == "exode_method":
                    names = f.get("selectables", names)
    except (OSError, ValueError, KeyError):
        pass
    random.Random(chk.seed).shuffle(names)
    return names


if __name__ == "__main__":
    driver.main("C15", RULE, drive, worker)
