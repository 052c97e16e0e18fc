"""C29: an assembled operator matrix is the operator, on any number of processes, and matrix files give back what was stored."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one assembly of an operator into a matrix by gen_matrix (random linear operators with known matrices; the Jacobians and "
    "Rosenbrock operators of the real models) or one matrix set stored and loaded. Random operators are compared entry by entry, model operators by products with random vectors "
    "and with centred differences of the model's tendencies. Non-trivial: the matrix is not diagonal."
)


def worker(rec, spec):
    import contextlib, io, warnings
    import numpy as np
    import scipy.sparse as sp
    from mpi4py import MPI
    from solvers import MatvecOp, MatvecOpRat, matvec_fun
    from solvers import eigenvalue_util as EU
    from vf import sims, glob

    warnings.simplefilter("ignore")
    comm = MPI.COMM_WORLD
    mon = comm.Dup()
    size, rank = mon.size, mon.rank
    rng = np.random.default_rng([spec["seed"], 29, size])

    def gen(*a, **k):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return EU.gen_matrix(*a, **k)

    def cut(v):
        n = v.shape[0] // size
        return v[n * rank : n * (rank + 1)]

    def saved(path, J, key):
        if rank == 0:
            rec.count("files")
            try:
                L = sp.load_npz(path)
            except Exception as e:  # noqa
                return rec.violation("file", f"the stored matrix cannot be read: {type(e).__name__}: {e} ({key})")
            if L.shape != J.shape or abs(L - J).sum() != 0:
                rec.violation("file", f"the stored matrix is not the one returned ({key})")

    # random operators whose matrix is known
    for it in range(spec["n"]):
        shape = tuple(int(s) for s in rng.integers(1, 5, rng.integers(1, 4)))
        n = int(np.prod(shape))
        dtype = [np.float64, np.complex128, np.float32][rng.integers(3)]
        M = rng.standard_normal((n * size, n * size)) * 10.0 ** rng.integers(-12, 6)
        M[rng.uniform(size=M.shape) < rng.choice([0.0, 0.5, 0.95])] = 0.0
        if dtype is np.complex128:
            M = M * (1 + 1j * rng.uniform(-1, 1, M.shape))
        if rng.integers(4) == 0:
            M[:, rng.integers(n * size)] = 0.0
        compressed = [None, True, False][rng.integers(3)]
        local = bool(rng.integers(2))
        key = f"random {shape} {np.dtype(dtype).name} np{size} compressed {compressed} local {local}"
        rec.begin(key)
        seen = []

        def mv(v, M=M, n=n, dtype=dtype):
            seen.append(v.shape)
            whole = np.concatenate(mon.allgather(np.asarray(v).ravel()))
            return cut(M @ whole)

        path = os.path.join(spec["out"], f"j{size}_{it}.npz") if rng.integers(2) and not (local and size > 1) else None
        J = gen(MatvecOp(mv, dtype, shape), jac_file_name=path, compressed=compressed, local=local)
        rec.case(f"{key}|{it}")
        rec.count("assembled")
        if local:
            want = M[n * rank : n * (rank + 1), n * rank : n * (rank + 1)]
        else:
            want = M
            if (J is None) != (rank != 0):
                rec.violation("who", f"process {rank} of {size} received {'nothing' if J is None else 'a matrix'} ({key})")
                continue
            if J is None:
                if path:
                    saved(path, J, key)
                continue
        if J.shape != want.shape:
            rec.violation("shape", f"the matrix has shape {J.shape} instead of {want.shape} ({key})")
            continue
        d = np.abs(J.toarray() - want)
        rec.count("entries", int(d.size))
        if not d.max() <= 1e-6 * np.abs(M).max() * (1 if dtype is np.float32 else 1e-8):
            i = np.unravel_index(np.argmax(d), d.shape)
            rec.violation("entry", f"entry {tuple(int(q) for q in i)} is {J.toarray()[i]} instead of {want[i]} ({key})")
        if path:
            saved(path, J, key)

    # operators of the models
    for it, kw in enumerate(spec["models"]):
        rec.begin(f"model {kw}")
        sim = sims.make(output_dir=os.path.join(spec["out"], f"m{size}_{it}"), **kw)
        Q = np.array(sim.initial_Q)
        u = np.random.default_rng([spec["seed"], it, rank]).uniform(-1, 1, Q.shape)
        Q = Q * (1 + 1e-3 * u)
        if kw.get("cart"):  # a wind everywhere: at rest the upwind switches of the fluxes have no derivative
            Q[1] += Q[0] * (13.0 + u[1])
            Q[2] += Q[0] * (7.0 + u[2])
        f = sim.rhs.full
        R = np.array(f(Q))
        dt = float(rng.choice([0.01, 1.0, 30.0]))
        n = Q.size
        scale = np.concatenate([np.full(Q[k].size, mon.allreduce(float(np.abs(Q[k]).max()), MPI.MAX) or 1.0) for k in range(Q.shape[0])])
        for name, op in (("jacobian", MatvecOp(lambda v: matvec_fun(v, dt, Q, R, f, "complex"), Q.dtype, Q.shape)),
                         ("rosenbrock", MatvecOpRat(dt, Q, R, f))):
            key = f"{name} of {kw} np{size} dt {dt}"
            J = gen(op)
            rec.case(key)
            rec.count("models")
            for k in range(3):
                v = scale * np.random.default_rng([spec["seed"], it, k, rank]).uniform(-1, 1, n)
                if k == 2:  # one process only
                    v = v * (rank == size - 1)
                V = mon.gather(v, root=0)
                mine = mon.scatter(list((J @ np.concatenate(V)).reshape(size, n)) if rank == 0 else None, root=0)
                # the derivative of the tendencies along v, by centred differences
                h = 1e-6
                D = [(np.array(f(Q + s * v.reshape(Q.shape))) - np.array(f(Q - s * v.reshape(Q.shape)))).ravel() / (2 * s) for s in (h, 2 * h)]
                der = dt * (4 * D[0] - D[1]) / 3
                rough = dt * np.abs(D[0] - D[1])  # (upwind switches within the difference)
                want = der if name == "jacobian" else v - 0.5 * der
                if name == "jacobian":  # the operator itself, applied to the whole vector
                    direct = np.asarray(op(v))
                    d, top = (mon.allreduce(float(np.abs(x).max()), MPI.MAX) for x in (mine - direct, direct))
                    if not d <= 1e-6 * top and rank == 0:
                        rec.violation("model:product", f"matrix times vector {k} differs from the operator by {d / top:.1e} ({key})")
                for q in range(Q.shape[0]):
                    part = slice(q * Q[0].size, (q + 1) * Q[0].size)
                    top = mon.allreduce(float(max(np.abs(want[part]).max(), np.abs(v[part]).max() if name == "rosenbrock" else 0.0)), MPI.MAX)
                    err = mon.allreduce(float((np.abs(mine[part] - want[part]) - 10 * rough[part]).max()), MPI.MAX)
                    rec.count("products")
                    if top > 0:
                        rec.sample(f"{key} variable {q}: {err / top:.1e}")
                    if os.environ.get("VF_DEBUG") and rank == 0:
                        print("C29", key, k, q, err / top if top else 0)
                    if not err <= spec["tol"][name] * top and rank == 0:
                        rec.violation(f"model:{name}", f"matrix times vector {k} is off by {err / top:.1e} of the derivative of variable {q} ({key})")

    # matrix sets
    if rank == 0:
        for it in range(spec["sets"]):
            n = int(rng.integers(1, 20))
            fmt = lambda: ["csc", "csr", "bsr", "dia", "coo"][rng.integers(5)]

            def mat():
                A = sp.random(n, n, density=float(rng.uniform(0, 1)), random_state=int(rng.integers(1 << 30)), format="csc")
                if rng.integers(4) == 0:
                    A = A * (1 + 2j)
                return A.asformat(fmt())

            S = {"param": {"x": float(rng.uniform()), "name": "s"}, "permutation": rng.permutation(n)}
            for name in ["all", "imp", "exp", "q"][: rng.integers(1, 5)]:
                S[name] = {"rhs": rng.standard_normal(n), "rhs_p": rng.standard_normal(n), "matrix": mat(), "matrix_p": mat()}
            if rng.integers(2):
                S["precond"], S["precond_p"] = mat(), mat()
            keys = list(S)
            rng.shuffle(keys)
            S = {k: S[k] for k in keys}
            path = os.path.join(spec["out"], f"set{it}.bin")
            fmts = [m.format for k, v in S.items() for m in ([v["matrix"], v["matrix_p"]] if isinstance(v, dict) and "matrix" in v else [v] if sp.issparse(v) else [])]
            key = f"{n}x{n} {keys} {fmts}"
            rec.begin(f"set {key}")
            EU.store_matrix_set(path, S)
            L = EU.load_matrix_set(path)
            rec.case(f"set {it} {key}")
            rec.count("sets")
            if set(L) != set(S):
                rec.violation("set", f"stored {sorted(S)}, loaded {sorted(L)} ({key})")
                continue

            def same(a, b):
                return a.format == b.format and a.shape == b.shape and np.array_equal(a.toarray(), b.toarray())

            for k, v in S.items():
                if k == "param":
                    ok = L[k] == v
                elif k == "permutation":
                    ok = np.array_equal(L[k], v)
                elif k.startswith("precond"):
                    ok = same(L[k], v)
                else:
                    ok = all(np.array_equal(L[k][w], v[w]) for w in ("rhs", "rhs_p")) and all(same(L[k][w], v[w]) for w in ("matrix", "matrix_p"))
                if not ok:
                    rec.violation("set", f"entry '{k}' loaded differs from the one stored ({key})")


def drive(chk):
    me = "checks/c29.py"
    t = chk.thorough
    base = {"tol": {"jacobian": 1e-3, "rosenbrock": 5e-3}, "models": [], "sets": 0}
    for np_, n, sets in ((1, 15, 25), (2, 12, 0), (3, 12, 0), (5, 8, 0)):
        models = []
        if np_ == 1:
            models = [dict(cart=True, case=2, nelx=3, nelz=2, ns=3, dt=1.0)] + ([dict(cart=True, case=2, nelx=2, nelz=5, ns=2, dt=1.0)] if t else [])
        chk.run_worker(me, {**base, "n": n * (10 if t else 1), "sets": sets * (10 if t else 1), "models": models, "label": f"np{np_}"}, np=np_, timeout=1200 if t else 240)
    models = [dict(case=6, nel=1, ns=3, lambda0=0.2, phi0=0.1, alpha0=0.3, dt=1.0)]
    if t:
        models += [dict(case=5, nel=2, ns=2, dt=1.0), dict(case=31, nel=1, ns=2, nev=2, dt=1.0)]
    chk.run_worker(me, {**base, "n": 4, "models": models, "label": "np6"}, np=6, timeout=1200 if t else 240)
    chk.require("assembled", 40)
    chk.require("entries", 3000)
    chk.require("products", 20)
    chk.require("sets", 15)
    chk.require("files", 8)


if __name__ == "__main__":
    driver.main("C29", RULE, drive, worker)
