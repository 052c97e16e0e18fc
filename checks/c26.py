"""C26: complete simulations converge to the solution of their own equations with every time integrator."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one model (shallow water, spherical Euler, box) with one time integrator, run as a complete simulation with two step sizes (the last step shortened) "
    "to the same time; the final states are compared with an integration of the model's tendencies done by the harness with a high-order method and small steps. The "
    "error must shrink at the order of the integrator. Non-trivial: the state has moved by far more than the error."
)

ORDER = {"euler1": 1, "tvdrk3": 3, "epi2": 2, "epi3": 3, "epi4": 4, "epi5": 5, "epi6": 6, "epi_stiff3": 3, "epi_stiff4": 4, "epi_stiff5": 5, "epi_stiff6": 6,
         "srerk3": 3, "srerk4": 4, "srerk5": 5, "srerk6": 6, "ros2": 2, "backward_euler": 1, "bdf2": 2, "crank_nicolson": 2}


def worker(rec, spec):
    import contextlib, io
    import numpy as np
    from mpi4py import MPI
    from scipy.integrate._ivp import dop853_coefficients as D8
    from vf import sims

    np.seterr(all="ignore")
    mon = MPI.COMM_WORLD.Dup()
    dbg = os.environ.get("VF_DEBUG")
    A, B, n = D8.A[:12, :12], D8.B, 12

    def dop8(f, q, T, steps):
        h = T / steps
        for _ in range(steps):
            k = []
            for i in range(n):
                k.append(f(q + h * sum((A[i, j] * k[j] for j in range(i)), np.zeros_like(q))))
            q = q + h * sum(B[i] * k[i] for i in range(n))
        return q

    def gmax(Q):
        v = np.array([np.max(np.abs(Q[i])) for i in range(Q.shape[0])])
        out = np.empty_like(v)
        mon.Allreduce(v, out, op=MPI.MAX)
        return out

    for m in spec["models"]:
        kw = dict(m["kw"])
        T = m["T"]
        rec.begin(f"reference of {m['name']}")
        sim = sims.make(integrator="tvdrk3", dt=T, t_end=T, **kw)
        f = lambda q: np.array(sim.rhs.full(q))
        Q0 = np.array(sim.initial_Q)
        ref = dop8(f, Q0, T, m["ref"])
        ref2 = dop8(f, Q0, T, m["ref"] * 2)
        move = gmax(ref2 - Q0)
        floor = float(np.max(gmax(ref2 - ref) / move))
        ref = ref2
        if dbg and mon.rank == 0:
            print("C26 reference", m["name"], "self-agreement", floor, "moved", move, flush=True)
        if not floor < m.get("reftol", 1e-6):
            rec.error(f"reference not converged ({floor}) for {m['name']}")
            continue
        for integ, opts in m["integrators"]:
            p = ORDER[integ]
            err = []
            for k in (1, 2):
                N = m["steps"] * k
                dt = T / (N - 0.4) if m.get("short", True) else T / N
                rec.begin(f"{m['name']} {integ} {opts} dt={dt}")
                s = sims.make(integrator=integ, dt=dt, t_end=T, **{**kw, **opts})
                with contextlib.redirect_stdout(io.StringIO()):
                    s.run()
                rec.count("simulations")
                rec.count("steps", N)
                err.append(float(np.max(gmax(np.array(s.Q) - ref) / move)))
            slope = np.log2(err[0] / err[1]) if err[1] > 0 else 99.0
            rec.case(f"{m['name']} {integ} {opts}", nontrivial=err[1] < 0.1)
            rec.sample(f"{m['name']} {integ} {opts}: errors {err[0]:.2e} {err[1]:.2e}")
            if dbg and mon.rank == 0:
                print(f"C26 {m['name']:14s} {integ:14s} {opts} p={p} err {err[0]:.3e} {err[1]:.3e} slope {slope:.2f}", flush=True)
            c = {**m, **m["smooth"]} if "smooth" in m and floor < 1e-11 else m
            want = min(p, 3 if opts.get("exponential_solver") == "exode" else c.get("cap", 4)) - c.get("slack", 0.6)
            fl = max(c["floor"], 30 * floor)
            ok = np.isfinite(err[0]) and np.isfinite(err[1]) and err[1] <= m["limit"] and (err[1] <= fl or slope >= want)
            if not ok and mon.rank == 0:
                rec.violation(f"convergence:{integ}", f"errors {err[0]:.3e} and {err[1]:.3e} with {m['steps']} and {2 * m['steps']} steps (order {slope:.2f} instead of {p}) for {m['name']} {integ} {opts}")


def drive(chk):
    me = "checks/c26.py"
    import numpy as np

    r = np.random.default_rng([chk.seed, 26])
    ang = lambda: dict(zip(("lambda0", "phi0", "alpha0"), [round(float(v), 4) for v in r.uniform(-0.7, 0.7, 3)]))
    every = list(ORDER)

    def some(n, must=()):
        names = list(must) + [str(x) for x in r.permutation([e for e in every if e not in must])]
        return [[i, {}] for i in (names if chk.thorough else names[:n])]

    extra = [["epi3", {"exponential_solver": "kiops"}], ["epi4", {"exponential_solver": "exode"}], ["epi2", {"jacobian_method": "fd"}], ["ros2", {"gmres_restart": 7}]]

    def sw(nel=2, rotated=False):
        # Where the reference shows smooth tendencies (no velocity changing sign at a face) the high orders must show too; upwind kinks cost order, and then only
        # a method that is not consistent stands out.
        k = float(r.uniform(0.85, 1.1)) * (1.2 if rotated else 1.0)
        return dict(name="rotated shallow water" if rotated else "shallow water", kw=dict(case=6, nel=nel, ns=int(r.choice([3, 4])) if rotated else 4, tolerance=1e-11, **(ang() if rotated else {})),
                    T=3200.0 * k, steps=8, ref=40, reftol=1e-4, smooth=dict(floor=1e-6, cap=4 if not rotated else 3, slack=0.8), floor=1.5e-3, cap=2, slack=0.7, limit=1.0,
                    integrators=some(3) if rotated else some(8) + extra)

    swr = lambda nel=2: sw(nel, True)

    def box():
        return dict(name="box", kw=dict(cart=True, case=2, nelx=int(r.integers(2, 5)), nelz=int(r.integers(3, 6)), ns=int(r.choice([2, 3])), tolerance=1e-11), T=float(r.uniform(0.5, 0.8)), steps=8,
                    ref=40, floor=2e-5, limit=2.0, integrators=some(5, ("tvdrk3", "ros2")))

    def ball():
        return dict(name="sphere", kw=dict(case=31, nel=2, ns=int(r.choice([2, 3])), nev=2, depth=str(r.choice(["shallow", "deep"])), tolerance=1e-11, **ang()), T=float(r.uniform(5.0, 8.0)), steps=8, ref=40,
                    floor=1e-3, limit=1.0, integrators=some(4, ("tvdrk3", "ros2")))

    k = 4 if chk.thorough else 1
    chk.run_worker(me, dict(models=[box() for _ in range(k)], label="box"), np=1, timeout=300 * k)
    chk.run_worker(me, dict(models=[m() for m in (sw, swr, ball) for _ in range(k)], label="np6"), np=6, timeout=400 * k)
    if chk.thorough:
        chk.run_worker(me, dict(models=[sw(4), swr(4)], label="np24"), np=24, timeout=1200)
    chk.require("simulations", 20)


if __name__ == "__main__":
    driver.main("C26", RULE, drive, worker)
