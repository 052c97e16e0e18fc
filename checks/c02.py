"""C02: gathering a field to one global array and distributing it back are exact inverses, in the documented order."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one gather, distribute or layout conversion with random shape, dtype, leading/trailing dimensions and "
    "communicator (the whole world, or a reordered sub-communicator), compared bit for bit with slices of one global "
    "array built from the documented panel/row/column order; rejected shapes must be rejected by every process. "
    "Non-trivial: more than one value per tile."
)


def worker(rec, spec):
    import contextlib, io
    import numpy as np
    from mpi4py import MPI
    from vf import cube, sims

    world = MPI.COMM_WORLD
    from device import CpuDevice
    from process_topology import ProcessTopology

    rng = np.random.default_rng(spec["seed"] * 104729 + world.size)

    def run_on(comm, tag, iters):
        device = CpuDevice(comm=comm)
        ptopo = ProcessTopology(device, comm=comm)
        tiles = cube.Tiles(comm.size)
        panel, row, col = tiles.locate(comm.rank)
        n = tiles.n
        for it in range(iters):
            num_dim = int(rng.integers(2, 5))
            lead = tuple(int(x) for x in rng.integers(1, 4, num_dim - 2))
            elem = [(), (3,), (4,), (2, 3), (1,)][int(rng.integers(5))]
            ts = int(rng.integers(1, 5))
            dtype = ["float64", "complex128", "float32", "int64"][int(rng.integers(4))]
            special = bool(rng.integers(3) == 0)
            noncontig = bool(rng.integers(2))
            s = int(rng.integers(2**31))
            N = n * ts
            label = f"{tag} dims={num_dim} lead={lead} tile={ts} elem={elem} {dtype} seed={s}"
            rec.begin(label)
            g = np.random.default_rng(s)
            G = g.standard_normal((6,) + lead + (N, N) + elem) * 1e3
            if dtype == "complex128":
                G = G + 1j * g.standard_normal(G.shape)
            G = G.astype(dtype)
            if special and dtype.startswith("float"):
                flat = G.reshape(-1)
                flat[g.integers(flat.size)] = np.nan
                flat[g.integers(flat.size)] = np.inf
                flat[g.integers(flat.size)] = -0.0
            mine = G[panel][(slice(None),) * len(lead) + (slice(row * ts, row * ts + ts), slice(col * ts, col * ts + ts))]
            mine = np.ascontiguousarray(mine)

            def same(a, b):
                a = np.asarray(a)
                return a.shape == b.shape and a.dtype == b.dtype and \
                    np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()

            arg = mine.copy()
            if noncontig:
                big = np.zeros(arg.shape + (2,), dtype=arg.dtype)
                big[..., 1] = arg
                arg = big[..., 1]
            got = ptopo.gather_cube(arg, num_dim)
            rec.case("gather " + label, nontrivial=mine.size > 1)
            if comm.rank == 0:
                if got is None:
                    rec.violation("gather:root-none", f"root received nothing ({label})")
                elif not same(got, G):
                    rec.violation(f"gather:order:nd{num_dim}", f"gathered array differs from the global one ({label}; "
                                  f"shape {np.shape(got)} vs {G.shape})")
            elif got is not None:
                rec.violation("gather:nonroot", f"a non-root process received an array ({label})")
            if not same(arg, mine):
                rec.violation("gather:input", f"gather modified its input ({label})")

            src = np.ascontiguousarray(G.copy()) if comm.rank == 0 else [None, np.zeros(3)][int(s % 2)]
            tile = ptopo.distribute_cube(src, num_dim)
            rec.case("distribute " + label, nontrivial=mine.size > 1)
            if tile is None or not same(tile, mine):
                rec.violation(f"distribute:order:nd{num_dim}", f"tile {panel}/{row}/{col} received wrong data ({label}; "
                              f"shape {np.shape(tile)} vs {mine.shape})")
            if comm.rank == 0 and not same(src, G):
                rec.violation("distribute:input", f"distribute modified its input ({label})")
            # round trip the other way round
            back = ptopo.distribute_cube(ptopo.gather_cube(mine.copy(), num_dim), num_dim)
            if back is None or not same(back, mine):
                rec.violation(f"roundtrip:nd{num_dim}", f"distribute(gather(x)) != x ({label})")
            rec.count("round_trips")
            # the returned tile belongs to the caller: writing to it must not show up elsewhere
            try:
                tile[...] = 0
            except ValueError:
                pass
            again = ptopo.gather_cube(mine.copy(), num_dim)
            if comm.rank == 0 and not same(again, G):
                rec.violation("gather:shared", f"a later gather is disturbed by writes to an earlier result ({label})")

            # one-dimensional data (coordinates along x1): a line across the panel
            line = g.standard_normal((6, N))
            got = ptopo.gather_cube(line[panel, col * ts:col * ts + ts].copy(), 1)
            rec.count("lines_gathered")
            if comm.rank == 0 and (got is None or not same(got, line)):
                rec.violation("gather:line", f"one-dimensional data are not joined along the panel ({label})")

            if it % 4 == 0:  # arrays that do not describe this cube must be refused by every process
                bads = [np.zeros((5,) + lead + (N, N) + elem), np.zeros((6,) + lead + (N, N + 1) + elem)]
                if n > 1:
                    bads.append(np.zeros((6,) + lead + (N + 1, N + 1) + elem))
                bad = bads[int(s) % len(bads)]
                refused = False
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        ptopo.distribute_cube(bad if comm.rank == 0 else None, num_dim)
                except BaseException as e:
                    if isinstance(e, KeyboardInterrupt):
                        raise
                    refused = True
                rec.count("refusals_checked")
                if not refused:
                    rec.violation("distribute:refuse", f"shape {bad.shape} was accepted by rank {comm.rank} of {comm.size}")
        return ptopo, device

    iters = spec["iterations"]
    ptopo, device = run_on(world, f"world{world.size}", iters)
    # a sub-communicator with another numbering of the processes
    if world.size >= 6:
        key = [int(k) for k in np.random.default_rng(spec["seed"] + 5).permutation(world.size)]
        for k in (24, 6):
            if k > world.size:
                continue
            order = key[world.rank]
            sub = world.Split(0 if order < k else MPI.UNDEFINED, order)
            if sub != MPI.COMM_NULL:
                state = rng.bit_generator.state
                run_on(sub, f"sub{k}of{world.size}", max(4, iters // 4))
                rng.bit_generator.state = state
            world.Barrier()

    # element layout <-> single block, on real geometries
    def brute_block2(a, nex, nez, ns):
        out = np.empty(a.shape[:-3] + (nez * ns, nex * ns), dtype=a.dtype)
        for ez in range(nez):
            for ex in range(nex):
                for j in range(ns):
                    for i in range(ns):
                        out[..., ez * ns + j, ex * ns + i] = a[..., ez, ex, j * ns + i]
        return out

    def brute_block3(a, nh, nv, ns):
        out = np.empty(a.shape[:-4] + (nv * ns, nh * ns, nh * ns), dtype=a.dtype)
        for ez in range(nv):
            for ey in range(nh):
                for ex in range(nh):
                    e = a[..., ez, ey, ex, :].reshape(a.shape[:-4] + (ns, ns, ns))
                    out[..., ez * ns:(ez + 1) * ns, ey * ns:(ey + 1) * ns, ex * ns:(ex + 1) * ns] = e
        return out

    for kw in spec["geoms"]:
        rec.begin(kw)
        if kw.get("cart"):
            if world.size != 6:
                continue
            sim = sims.make(comm=MPI.COMM_SELF, **kw)
        else:
            sim = sims.make(**kw)
        geom, Q = sim.geometry, sim.initial_Q
        r2 = np.random.default_rng([spec["seed"], world.rank])
        a = r2.standard_normal(Q.shape)
        ns = kw["ns"]
        if kw.get("cart"):
            exp = brute_block2(a, kw["nelx"], kw["nelz"], ns)
        elif kw["case"] <= 10:
            nh = sim.config.num_elements_horizontal
            exp = brute_block2(a, nh, nh, ns)
        else:
            nh = sim.config.num_elements_horizontal
            exp = brute_block3(a, nh, kw["nev"], ns)
        got = geom.to_single_block(a.copy())
        rec.case(f"block {kw}")
        rec.count("layouts_checked")
        if got.shape != exp.shape or not np.array_equal(got, exp):
            rec.violation(f"block:case{kw['case']}", f"single-block layout does not put every value at its place ({kw})")
        for v in range(a.shape[0]):
            g1 = geom.to_single_block(a[v].copy())
            if not np.array_equal(g1, exp[v]):
                rec.violation(f"block1:case{kw['case']}", f"single-block layout of one variable is wrong ({kw})")
        # places: gathered coordinates of the grid, against the independent geometry
        if not kw.get("cart"):
            tiles = cube.Tiles(world.size)
            panel = tiles.locate(world.rank)[0]
            dim = 2 if kw["case"] <= 10 else 3
            lonlat = np.array([np.cos(geom.block_lat) * np.cos(geom.block_lon),
                               np.cos(geom.block_lat) * np.sin(geom.block_lon), np.sin(geom.block_lat)])
            G = sim.process_topo.gather_cube(lonlat, 3)
            if world.rank == 0:
                nel = kw["nel"]
                x, _ = np.polynomial.legendre.leggauss(ns)
                ang = (-np.pi / 4 + (np.arange(nel)[:, None] + (x[None, :] + 1) / 2) * (np.pi / 2) / nel).ravel()
                a2, a1 = np.meshgrid(ang, ang, indexing="ij")
                for p in range(6):
                    pos = np.moveaxis(cube.position(p, a1, a2), -1, 0)
                    rec.case(f"places {kw} panel{p} np{world.size}")
                    rec.count("places_checked")
                    if np.shape(G[p]) != pos.shape or not np.max(np.abs(G[p] - pos)) < 1e-12:
                        rec.violation(f"places:panel{p}:case{kw['case']}",
                                      f"gathered grid of panel {p} is not in (x2, x1) order ({kw}, {world.size} processes)")


def drive(chk):
    sizes = [6, 24, 54] if chk.thorough else [6, 24]
    it = 160 if chk.thorough else 40
    geoms = [dict(case=6, nel=4, ns=3), dict(case=6, nel=6, ns=2), dict(case=31, nel=4, nev=3, ns=2),
             dict(case=2, cart=True, nelx=5, nelz=3, ns=3)]
    for n in sizes:
        gs = geoms if n < 54 else [dict(case=6, nel=6, ns=2)]
        if n == 24:
            gs = [g for g in geoms]
        chk.run_worker("checks/c02.py", {"iterations": it if n < 54 else it // 4, "geoms": gs, "label": f"np{n}"}, np=n,
                       timeout=240)
    chk.require("round_trips", 40)
    chk.require("refusals_checked", 20)
    chk.require("layouts_checked", 10)
    chk.require("places_checked", 12)


if __name__ == "__main__":
    driver.main("C02", RULE, drive, worker)
