"""C01: halo exchange hands every tile its neighbour's physical values."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one exchange (scalar, contravariant or covariant vector) on one process: random values, dtype, array "
    "layout, boundary shape and flip dimensions, compared side by side with the neighbour's values carried through "
    "3-D space by an independent embedding of the cube; live cases are the exchanges of real simulations. Non-trivial: "
    "at least one of the four sides crosses a panel edge or the data has more than one element per side."
)


def worker(rec, spec):
    import numpy as np
    import time
    from mpi4py import MPI
    from vf import cube, halo, sims

    comm = MPI.COMM_WORLD
    from device import CpuDevice
    from process_topology import ProcessTopology

    side_names = "SNWE"
    tiles = cube.Tiles(comm.size)
    rank = comm.rank
    mon = comm.Dup()
    device = CpuDevice()
    rng = np.random.default_rng(spec["seed"] * 7919 + comm.size)  # same stream on every process

    def check_side(kind, s, got, exp, tol, extra, shapes_ok=True):
        got = got if isinstance(got, tuple) else (got,)
        exp = exp if isinstance(exp, (tuple, list)) else (exp,)
        panel = tiles.locate(rank)[0]
        edge = tiles.locate(tiles.neighbour(rank, s)[0])[0] != panel
        key = f"{kind}:panel{panel}{side_names[s]}:{'edge' if edge else 'inner'}"
        if len(got) != len(exp):
            rec.violation(key + ":ncomp", f"received {len(got)} components instead of {len(exp)}", extra)
            return
        for c, (g, e) in enumerate(zip(got, exp)):
            rec.count("sides_compared")
            if np.shape(g) != np.shape(e):
                rec.violation(key + ":shape", f"received shape {np.shape(g)} instead of {np.shape(e)}", extra)
                return
            scale = np.max(np.abs(e)) + 1e-300
            err = np.max(np.abs(np.asarray(g) - e)) / scale if np.size(e) else 0.0
            if not err <= tol:
                rec.violation(
                    key, f"component {c} differs from the neighbour's value by {err:.3e} (relative) ({extra})",
                    {"got": np.asarray(g).ravel()[:8], "expected": np.asarray(e).ravel()[:8], "case": extra},
                )

    if spec["mode"] == "synthetic":
        ptopo = ProcessTopology(device)
        pending = []

        def finish(item):
            kind, req, exp, keep, tol, extra = item
            res = req.wait()
            if len(res) != 4:
                rec.violation(f"{kind}:sides", "did not return four sides")
                return
            for s in range(4):
                check_side(kind, s, res[s], exp[s], tol, extra)
            rec.case(f"{kind}|{extra}|{comm.size}", nontrivial=True)
            keep.append((kind, res, exp, tol, extra))

        kept = []
        for it in range(spec["iterations"]):
            kind = ["scalar", "contra", "cov"][int(rng.integers(3))]
            dtype = ["float64", "complex128", "float64", "float32"][int(rng.integers(4))]
            nel, ns, nk = int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
            lead = [(), (2,), (3, 2), (nk,)][int(rng.integers(4))]
            layout = int(rng.integers(4))
            if comm.size == 6 and it % 6 > 3:  # two long messages of one shape (sent while others are on their way)
                kind, dtype, lead, layout, nel, ns = "scalar" if it % 12 < 6 else "contra", "float64", (3, 40), 0, 3, 60
            if layout == 0:  # boundary is a line, arrays end with that line
                bshape, tail, fd = (nel * ns,), (nel * ns,), -1
            elif layout == 1:  # arrays end with (element, point), exchanged as a line
                bshape, tail, fd = (nel * ns,), (nel, ns), -1
            elif layout == 2:  # boundary has shape (element, point)
                bshape, tail, fd = (nel, ns), (nel, ns), (-2, -1)
            else:  # boundary has shape (element, level, point)
                bshape, tail, fd = (nel, ns, ns), (nel, ns * ns) if rng.integers(2) else (nel, ns, ns), (-3, -1)
            shape = lead + tail
            ncomp = 1 if kind == "scalar" else int(rng.integers(2, 4))
            as_array = bool(rng.integers(2))
            noncontig = bool(rng.integers(2))
            clobber = bool(rng.integers(2))
            # symmetric points inside every element
            half = np.sort(rng.uniform(0.02, 0.48, ns // 2))
            pts = np.concatenate([half, [0.5] * (ns % 2), 1 - half[::-1]])
            frac = (np.arange(nel)[:, None] + pts[None, :]) / nel  # (nel, ns)
            if layout == 3:
                frac = np.broadcast_to(frac[:, None, :], (nel, ns, ns))
            frac = frac.reshape(bshape)
            case_seed = int(rng.integers(2**31))
            delay = float(rng.uniform(0, 0.004)) if rng.integers(4) == 0 else 0.0
            extra = f"{kind} {dtype} shape={shape} bshape={bshape} flip={fd} ncomp={ncomp} seed={case_seed}"
            rec.begin(extra)

            inputs, coords = {}, {}
            for r in range(comm.size):
                crng = np.random.default_rng([case_seed, r])
                inputs[r], coords[r] = {}, {}
                for s in range(4):
                    vals = []
                    for _ in range(ncomp):
                        a = crng.standard_normal(shape)
                        if dtype == "complex128":
                            a = a + 1j * crng.standard_normal(shape)
                        vals.append(a.astype(dtype))
                    inputs[r][s] = vals[0] if kind == "scalar" else tuple(vals)
                    a1, a2 = tiles.edge_coords(r, s, frac.ravel())
                    c = np.tan(a1 if s < 2 else a2).reshape(bshape)
                    coords[r][s] = c
            tol = 3e-5 if dtype == "float32" else 1e-11
            exp = {}
            for s in range(4):
                if kind == "scalar":
                    exp[s] = halo.expected_scalar(tiles, rank, s, inputs, bshape, fd)
                else:
                    exp[s], dist = halo.expected_vector(tiles, rank, s, inputs, coords, fd, kind == "cov")
                    assert dist < 1e-12, dist

            def prep(a):
                if noncontig:
                    big = np.zeros(a.shape + (2,), dtype=a.dtype)
                    big[..., 0] = a
                    return big[..., 0]
                return a.copy()

            if kind == "scalar":
                args = [prep(inputs[rank][s]) for s in range(4)]
                snap = [a.copy() for a in args]
                if delay:
                    time.sleep(delay * ((rank * 7 + it) % 5))
                req = ptopo.start_exchange_scalars(*args, boundary_shape=bshape, flip_dim=fd)
                flat = args
            else:
                args = [tuple(prep(c) for c in inputs[rank][s]) for s in range(4)]
                if as_array:
                    args = [np.array(a) for a in args]
                    flat = list(args)
                else:
                    flat = [c for a in args for c in a]
                snap = [a.copy() for a in flat]
                if delay:
                    time.sleep(delay * ((rank * 7 + it) % 5))
                req = ptopo.start_exchange_vectors(
                    *args, boundary_sn=coords[rank][0], boundary_we=coords[rank][2], flip_dim=fd,
                    covariant=(kind == "cov"),
                )
            for a, b in zip(flat, snap):
                if not np.array_equal(a, b):
                    rec.violation(f"{kind}:input-modified", "the arrays given to the exchange were modified", extra)
            if clobber:
                for a in flat:
                    a[...] = 777.0
            pending.append((kind, req, exp, kept, tol, extra))
            rec.sample(extra)
            # keep up to three exchanges in flight, complete them in any order
            while len(pending) > int(rng.integers(0, 4)) and not (comm.size == 6 and it % 6 == 4):
                finish(pending.pop(int(rng.integers(len(pending)))))
        while pending:
            finish(pending.pop())
        # results already handed out must not change because of later exchanges
        for kind, res, exp, tol, extra in kept:
            rec.count("results_rechecked")
            for s in range(4):
                check_side(kind + ":later", s, res[s], exp[s], tol, extra)
        return

    # ---- live monitor: every exchange of a real simulation is checked against the oracle -----------------------
    orig_s, orig_v = ProcessTopology.start_exchange_scalars, ProcessTopology.start_exchange_vectors
    import inspect

    def bound(fn, args, kw):
        b = inspect.signature(fn).bind(*args, **kw)
        b.apply_defaults()
        return b.arguments

    class Proxy:
        def __init__(self, req, kind, a):
            self.req, self.kind, self.a = req, kind, a

        def wait(self):
            res = self.req.wait()
            live_check(self.kind, self.a, res)
            return res

        def __getattr__(self, n):
            return getattr(self.req, n)

    state = {"n": 0, "max": spec["max_live"]}

    def live_check(kind, a, res):
        state["n"] += 1
        if state["n"] > state["max"] and state["n"] % 11:
            return
        mine = {s: a["in"][s] for s in range(4)}
        allin = dict(enumerate(mon.allgather(mine)))
        if kind == "scalar":
            for s in range(4):
                e = halo.expected_scalar(tiles, rank, s, allin, a["bshape"], a["fd"])
                check_side("live-scalar", s, res[s], e, 1e-12, spec["label"])
        else:
            cs = dict(enumerate(mon.allgather({0: a["sn"], 1: a["sn"], 2: a["we"], 3: a["we"]})))
            for s in range(4):
                e, dist = halo.expected_vector(tiles, rank, s, allin, cs, a["fd"], a["cov"])
                if dist > 1e-10:
                    rec.violation(f"live-places:{side_names[s]}", f"sender and receiver disagree on places by {dist:.2e}")
                got = res[s]
                for c in range(2):
                    sc = max(np.max(np.abs(x)) for x in e[:2]) + 1e-300
                    err = np.max(np.abs(np.asarray(got[c]) - e[c])) / sc
                    rec.count("sides_compared")
                    if not err <= 1e-10:
                        panel = tiles.locate(rank)[0]
                        rec.violation(
                            f"live-{'cov' if a['cov'] else 'contra'}:panel{panel}{side_names[s]}",
                            f"component {c} received in a simulation differs from the neighbour's by {err:.2e}",
                        )
                if len(e) == 3 and not np.array_equal(np.asarray(got[2]), e[2]):
                    rec.violation(f"live-third:{side_names[s]}", "third component altered by the exchange")
        rec.count("live_exchanges")
        rec.case(f"live|{kind}|{spec['label']}|{state['n']}")

    def cp(x):
        return np.array(x, copy=True)

    def wrap_s(self, *args, **kw):
        b = bound(orig_s, (self,) + args, kw)
        a = {"in": [cp(b[k]) for k in ("south", "north", "west", "east")], "bshape": tuple(b["boundary_shape"]),
             "fd": b["flip_dim"]}
        return Proxy(orig_s(self, *args, **kw), "scalar", a)

    def wrap_v(self, *args, **kw):
        b = bound(orig_v, (self,) + args, kw)
        a = {"in": [tuple(cp(c) for c in b[k]) for k in ("south", "north", "west", "east")],
             "sn": cp(b["boundary_sn"]), "we": cp(b["boundary_we"]), "fd": b["flip_dim"], "cov": b["covariant"]}
        return Proxy(orig_v(self, *args, **kw), "vector", a)

    ProcessTopology.start_exchange_scalars = wrap_s
    ProcessTopology.start_exchange_vectors = wrap_v
    for cfg in spec["configs"]:
        rec.begin(cfg)
        sim = sims.make(**cfg)
        for _ in range(cfg.get("_steps", 1)):
            sims.quiet(sim.step)
        rec.count("live_runs")


def drive(chk):
    it = 400 if chk.thorough else 120
    sizes = [6, 24, 54] if chk.thorough else [6, 24]
    for n in sizes:
        k = it if n == 6 else (it // 2 if n == 24 else it // 3)
        chk.run_worker("checks/c01.py", {"mode": "synthetic", "iterations": k, "label": f"synthetic{n}"}, np=n,
                       timeout=240 if n < 54 else 400)
    sw = dict(case=6, nel=4, ns=3, integrator="tvdrk3", dt=600.0)
    sw5 = dict(case=5, nel=4, ns=2, integrator="epi2", dt=600.0, lambda0=-0.4, phi0=0.3, alpha0=-0.2)
    eu21 = dict(case=21, nel=4, ns=2, nev=2, integrator="tvdrk3", dt=0.5)
    eu31 = dict(case=31, nel=4, ns=3, nev=2, integrator="epi2", dt=2.0)
    for n in [6, 24] if not chk.thorough else [6, 24]:
        chk.run_worker("checks/c01.py", {"mode": "live", "configs": [sw, sw5, eu21, eu31], "max_live": 60,
                                         "label": f"live{n}"}, np=n, timeout=300)
    chk.require("sides_compared", 1000)
    chk.require("live_exchanges", 50)
    chk.require("results_rechecked", 50)


if __name__ == "__main__":
    driver.main("C01", RULE, drive, worker)
