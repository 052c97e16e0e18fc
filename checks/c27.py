"""C27: the stiff benchmark problems use their stated operators, exact Jacobian products, and integrate at their order, on any process grid."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one call of one operator, right-hand side or Jacobian product of the benchmark problems on one random grid (size, domain, boundary type, "
    "process grid 1, 2x2, 3x3 [4x4 thorough]) with smooth or random data. The whole grid is assembled by the documented process layout and compared with the harness's own "
    "stencils on the whole grid; Jacobian products are compared with complex-step derivatives of the harness's own tendencies. Integrations with the exponential integrators are "
    "compared with an eighth-order integration of the harness's tendencies for two step sizes. Non-trivial: the data are not constant."
)


def ghosted(G, bc):
    """The grid with one line of points outside of it."""
    import numpy as np

    n = G.shape[0]
    P = np.zeros((n + 2, n + 2), G.dtype)
    P[1:-1, 1:-1] = G
    if bc == "periodic":
        P[0, 1:-1], P[-1, 1:-1], P[1:-1, 0], P[1:-1, -1] = G[-1], G[0], G[:, -1], G[:, 0]
    elif bc == "Neumann":  # second-order one-sided condition du/dn = 0
        P[0, 1:-1], P[-1, 1:-1] = (4 * G[0] - G[1]) / 3, (4 * G[-1] - G[-2]) / 3
        P[1:-1, 0], P[1:-1, -1] = (4 * G[:, 0] - G[:, 1]) / 3, (4 * G[:, -1] - G[:, -2]) / 3
    return P


def lap(G, bc, h):
    P = ghosted(G, bc)
    return (P[2:, 1:-1] + P[:-2, 1:-1] + P[1:-1, 2:] + P[1:-1, :-2] - 4 * G) / h**2


def adv(G, bc, h):
    P = ghosted(G, bc)
    return (P[2:, 1:-1] - P[:-2, 1:-1] + P[1:-1, 2:] - P[1:-1, :-2]) / (2 * h)


def worker(rec, spec):
    import warnings
    import numpy as np
    from mpi4py import MPI
    from scipy.integrate import solve_ivp
    from stiff_pdes import JTV, initWorld, rhs_jac_pdefuncs as PDE, print_stuff
    from integrators import epi_for_others, srerk_for_others
    from vf import sims

    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    comm = MPI.COMM_WORLD
    mon = comm.Dup()
    size, rank = mon.size, mon.rank
    p = int(round(size**0.5))
    rng = np.random.default_rng([spec["seed"], 27, size])
    small = os.environ.get("VF_DEBUG")

    class Grid:
        def __init__(self, bc, nloc, domain):
            self.bc, self.nloc, self.n = bc, nloc, nloc * p
            self.total = self.n + (1 if bc == "periodic" else 2)
            self.world = initWorld.InitWorld(comm, bc, list(domain), self.total)
            self.h = (domain[1] - domain[0]) / (self.total - 1)
            s = domain[0] + self.h * (np.arange(self.n) + (0 if bc == "periodic" else 1))
            self.Y, self.X = np.meshgrid(s, s, indexing="ij")
            self.s = s
            self.slot = (slice((rank // p) * nloc, (rank // p + 1) * nloc), slice((rank % p) * nloc, (rank % p + 1) * nloc))
            w = self.world
            own = (s[self.slot[1]][0], s[self.slot[0]][0], self.h)
            told = (w.startX, w.startY, w.dx)
            if (w.numPointsX, w.numPointsY) != (nloc, nloc) or not np.allclose(own, told, rtol=1e-12, atol=1e-12):
                rec.violation(f"world:{bc}", f"process {rank} of {size} was given {w.numPointsX}x{w.numPointsY} points from {told[:2]} every {told[2]}, should be {nloc}x{nloc} from {own[:2]} every {own[2]} ({self.key()})")
            rec.count("worlds")

        def key(self):
            return f"{self.bc} {self.n}x{self.n} points np{size}"

        def mine(self, G):
            return np.ascontiguousarray(G[self.slot]).ravel()

        def whole(self, v):
            parts = mon.allgather(np.array(v, dtype=float))
            G = np.empty((self.n, self.n))
            for r, part in enumerate(parts):
                G[(r // p) * self.nloc: (r // p + 1) * self.nloc, (r % p) * self.nloc: (r % p + 1) * self.nloc] = part.reshape(self.nloc, self.nloc)
            return G

        def field(self):
            kind = int(rng.integers(4))
            if kind == 0:
                G = rng.standard_normal((self.n, self.n))
            elif kind == 1:
                G = rng.uniform(-1, 1, (self.n, self.n)) * 10.0 ** rng.integers(-6, 7)
            elif kind == 2:
                a, b, c = rng.uniform(-2, 2, 3)
                G = np.cos(a * self.X + 1.3 * b) * np.sin(b * self.Y + c) + 0.3
            else:  # one point only
                G = np.zeros((self.n, self.n))
                G[tuple(rng.integers(0, self.n, 2))] = 1.0
            return G

    def random_grid(bc):
        nloc = int(rng.choice([2, 3, 3, 4, 5, 7, 10]))
        if bc == "Neumann" and size == 1:
            nloc = max(nloc, 3)
        a = float(rng.choice([0.0, 0.0, -1.0, 2.5]))
        return Grid(bc, nloc, (a, a + float(rng.choice([1.0, 1.0, 3.0, 0.01]))))

    def compare(name, g, got_mine, want, args):
        got = g.whole(got_mine)
        scale = float(np.abs(want).max()) + args
        err = float(np.abs(got - want).max()) if np.all(np.isfinite(got)) else np.inf
        if rank == 0:
            rec.case(f"{name}|{g.key()}|{g.h:.3g}|{rec.counters['evaluations']}")
            rec.count("values", got.size)
            if not err <= 1e-11 * scale:
                j, i = np.unravel_index(int(np.nanargmax(np.abs(got - want))) if np.any(np.isfinite(got)) else 0, got.shape)
                rec.violation(f"op:{name}", f"{name}: {got[j, i]:.12g} instead of {want[j, i]:.12g} at row {j}, column {i} ({g.key()}, spacing {g.h:.4g})")

    def call(name, g, f, *inputs):
        """Call with inputs watched: the operators may not change what they are given."""
        mine = [g.mine(v) for v in inputs]
        keep = [m.copy() for m in mine]
        rec.begin(f"{name} {g.key()}")
        out = np.array(f(*mine))
        if any(not np.array_equal(a, b) for a, b in zip(mine, keep)):
            rec.violation(f"input:{name}", f"{name} changed the data it was given ({g.key()})")
        return out

    periodic = size > 1  # the periodic operators are written for several processes
    linear = [("laplacianDirichlet", "Dirichlet", lap), ("laplacianNeumann", "Neumann", lap), ("advectionDirichlet", "Dirichlet", adv), ("advectionNeumann", "Neumann", adv)]
    if periodic:
        linear += [("laplacianPeriodic", "periodic", lap), ("advectionPeriodic", "periodic", adv)]
    for it in range(spec["n"]):
        for name, bc, op in linear:
            g = random_grid(bc)
            v, e = g.field(), float(rng.choice([1.0, 0.01, -6.0, 3.3]))
            got = call(name, g, lambda a: getattr(JTV, name)(a, e, g.world), v)
            compare(name, g, got, e * op(v, bc, g.h), abs(e) * np.abs(v).max() * (1 / g.h**2 if op is lap else 1 / g.h))
        nonlin = [("nonLinAdvecDirichlet", "Dirichlet", adv, 1.0)]
        if periodic:
            nonlin += [("nonLinAdvecPeriodic", "periodic", adv, 1.0), ("nonLinLapPeriodic", "periodic", lap, 2.0)]
        for name, bc, op, c in nonlin:
            g = random_grid(bc)
            v, u, e = g.field(), g.field(), float(rng.choice([1.0, 0.01, -6.0]))
            got = call(name, g, lambda a, b: getattr(JTV, name)(a, b, e, g.world), v, u)
            compare(name, g, got, c * e * op(v * u, bc, g.h), abs(e) * np.abs(v * u).max() * (2 / g.h**2 if op is lap else 1 / g.h))
        squares = [("advectionUsquaredDir", "Dirichlet", adv, 0.5)]
        if periodic:
            squares += [("advectionUsquared", "periodic", adv, 0.5), ("laplacianUsquared", "periodic", lap, 1.0)]
        for name, bc, op, c in squares:
            g = random_grid(bc)
            v = g.field()
            got = call(name, g, lambda a: getattr(JTV, name)(a, g.world), v)
            compare(name, g, got, c * op(v * v, bc, g.h), np.abs(v * v).max() * (1 / g.h**2 if op is lap else 1 / g.h))

    # the four problems: tendencies and Jacobian products
    def own(problem, g, e, a, c):
        h = g.h
        return {
            "allencahn": lambda u: e * lap(u, "Neumann", h) + u - u**3,
            "adr": lambda u: e * lap(u, "Neumann", h) - a * adv(u, "Neumann", h) + c * u * (u - 0.5) * (1 - u),
            "porous": lambda u: lap(u * u, "periodic", h) + a * adv(u, "periodic", h),
            "burgers": lambda u: e * lap(u, "Dirichlet", h) - a * 0.5 * adv(u * u, "Dirichlet", h),
        }[problem]

    def real(problem, g, e, a, c):
        return {
            "allencahn": lambda u: PDE.allencahn_rhs(u, e, g.world),
            "adr": lambda u: PDE.adr_rhs(u, e, a, c, g.world),
            "porous": lambda u: PDE.porous_rhs(u, a, g.world),
            "burgers": lambda u: PDE.burgers_rhs(u, e, a, g.world),
        }[problem]

    problems = [("allencahn", "Neumann"), ("adr", "Neumann"), ("burgers", "Dirichlet")] + ([("porous", "periodic")] if periodic else [])
    for it in range(spec["n"]):
        for problem, bc in problems:
            g = random_grid(bc)
            e, a, c = float(rng.choice([0.01, 1.0, 0.3])), float(rng.choice([-6.0, 1.0, 0.05])), float(rng.choice([100.0, -3.0, 1.0]))
            u, v, dt = g.field(), g.field(), float(rng.choice([1.0, 1e-3, 0.37]))
            f = own(problem, g, e, a, c)
            un, vn = np.abs(u).max(), np.abs(v).max()
            stiff = abs(e) / g.h**2 + abs(a) / g.h + abs(c)
            noise = (1 + un) ** 2 * (stiff + (1 + un) / g.h**2)
            compare(f"{problem}_rhs", g, call(f"{problem}_rhs", g, real(problem, g, e, a, c), u), f(u), un * noise)
            J = np.imag(f(u + 1e-30j * (v / (vn or 1)))) / 1e-30 * (vn or 1) * dt
            got = call(f"{problem}_jtv", g, lambda w, z: getattr(PDE, f"{problem}_jtv")(w, z, dt, e, a, c, g.world), v, u)
            compare(f"{problem}_jtv", g, got, J, vn * dt * noise)
            rec.count("jacobians")

    # complete integrations
    runs = [(prob, meth, order, solver) for prob, _ in problems for meth, order in (("epi", 2), ("epi", 3), ("epi", 4), ("epi", 5), ("epi", 6), ("srerk", 3), ("srerk", 4), ("srerk", 5), ("srerk", 6)) for solver in spec["solvers"] + (["kiops_ne", "icwy_neiop"] if meth == "epi" else [])]
    pick, seen = [], set()
    for q in rng.permutation(len(runs)):  # every method (order) first, then any
        if runs[q][1:3] not in seen:
            seen.add(runs[q][1:3])
            pick.append(q)
    pick += [q for q in rng.permutation(len(runs)) if q not in pick]
    pick = pick[: spec["runs"]]
    bcs = dict(problems)
    for q in pick:
        problem, meth, order, solver = runs[int(q)]
        g = Grid(bcs[problem], {1: 8, 2: 4, 3: 3}.get(p, 2), (0.0, 1.0))
        e, a, c = 0.02, {"adr": -0.5, "porous": 0.3}.get(problem, 0.5), 8.0
        if problem == "porous":
            u0 = 0.02 + 0.01 * np.sin(2 * np.pi * g.X) * np.cos(2 * np.pi * g.Y)
        elif problem == "burgers":
            u0 = np.sin(np.pi * g.X) * np.sin(np.pi * g.Y) * (1 + 0.4 * g.X)
        else:
            u0 = 0.4 + 0.3 * np.cos(np.pi * g.X) * np.cos(2 * np.pi * g.Y)
        f = own(problem, g, e, a, c)
        T = {"porous": 0.6, "burgers": 0.8}.get(problem, 0.6)
        ref = solve_ivp(lambda t, y: f(y.reshape(g.n, g.n)).ravel(), (0, T), u0.ravel(), method="DOP853", rtol=1e-12, atol=1e-14).y[:, -1].reshape(g.n, g.n)
        jtv, errs = getattr(PDE, f"{problem}_jtv"), []
        N = (8, 16) if meth == "epi" else (3, 6)
        exact_start = meth == "epi" and order > 3 and rng.integers(3) > 0  # otherwise the second-order start-up of the method itself
        key = f"{problem} {meth}{order} {solver} {g.key()}" + (" exact start" if exact_start else "")
        ratio = 1.0
        if exact_start and rng.integers(3) == 0:  # the step changes halfway
            ratio = (0.5, 0.8, 1.4)[rng.integers(3)]
            N = (16, 32)
            key += f" steps changed from {ratio} to {2 - ratio:.1f}"
            rec.count("step_changes")

        class Start:
            def step(self, q, dt):
                y0 = g.whole(q).ravel()
                return g.mine(solve_ivp(lambda t, y: f(y.reshape(g.n, g.n)).ravel(), (0, dt), y0, method="DOP853", rtol=1e-12, atol=1e-14).y[:, -1].reshape(g.n, g.n))

        rec.begin(f"integrate {key}")
        for n in N:
            if meth == "epi":
                st = epi_for_others.Epi_others(order, real(problem, g, e, a, c), jtv, solver, g.world, [e, a, c], **({"init_method": Start()} if exact_start else {"init_substeps": 10}))
            else:
                st = srerk_for_others.Srerk_others(order, real(problem, g, e, a, c), jtv, solver, g.world, [e, a, c])
            Q = g.mine(u0)
            keep = Q.copy()
            first = Q
            for k in range(n):
                Q = sims.quiet(st.step, Q, T / n * (ratio if 2 * k < n else 2 - ratio))
                rec.count("steps")
            if not np.array_equal(first, keep):
                rec.violation(f"input:{meth}{order}", f"{meth}{order} changed the initial state ({key})")
            errs.append(float(np.abs(g.whole(Q) - ref).max()))
        if rank == 0:
            slope = float(np.log2(errs[0] / errs[1])) if errs[1] > 0 else 99.0
            rec.case(f"run|{key}")
            rec.count("runs")
            rec.sample(f"{key}: errors {errs[0]:.2e} {errs[1]:.2e}, order {slope:.2f}")
            if small:
                print("C27", key, ["%.2e" % x for x in errs], "%.2f" % slope)
            want = order if meth == "srerk" or exact_start else min(order, 2)
            if ratio != 1.0:  # the share of the exact starts differs
                want -= float(np.log2((N[1] - 2 * (order - 2)) / (2.0 * (N[0] - 2 * (order - 2)))))
            if not (errs[1] < 1e-9 or slope > want - spec["slack"]):
                rec.violation(f"order:{meth}{order}", f"{key}: errors {errs[0]:.3e}, {errs[1]:.3e} with {N[0]}, {N[1]} steps: order {slope:.2f} instead of {order}")
            if not errs[1] < spec["floor"]:
                rec.violation(f"accuracy:{meth}{order}", f"{key}: error {errs[1]:.3e} with {N[1]} steps")

    # the collected solution
    for it in range(2):
        g = random_grid("Dirichlet")
        G = g.field()
        parts = mon.gather(g.mine(G), root=0)
        if rank == 0:
            name = os.path.join(spec["out"], f"sol{it}.txt")
            got = np.asarray(print_stuff.print_sol(parts, name, g.world))
            told = np.loadtxt(name)
            rec.case(f"print_sol|{g.key()}|{it}")
            rec.count("printed")
            if not np.array_equal(got, G.ravel()) or not np.allclose(told, G.ravel(), rtol=1e-14, atol=0):
                rec.violation("print_sol", f"the collected solution is not the grid row by row ({g.key()})")


def drive(chk):
    me = "checks/c27.py"
    t = chk.thorough
    base = {"solvers": ["kiops", "pmex", "pmex_1s", "pmex_ne1s", "icwy_ne", "icwy_1s", "icwy_ne1s", "cwy_ne", "cwy_1s", "cwy_ne1s"], "slack": 0.7, "floor": 2e-3}
    for np_, n, runs in ((1, 15, 30), (4, 12, 30), (9, 8, 12)) + (((16, 6, 12),) if t else ()):
        chk.run_worker(me, {**base, "n": n * (8 if t else 1), "runs": runs * (20 if t else 1), "label": f"np{np_}"}, np=np_, timeout=2400 if t else 300)
    chk.require("values", 20000)
    chk.require("jacobians", 60)
    chk.require("runs", 60)
    chk.require("printed", 4)


if __name__ == "__main__":
    driver.main("C27", RULE, drive, worker)
