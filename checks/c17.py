"""C17: linear and non-linear solvers return what they say: residual, iteration history, convergence flag."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one call of fgmres, gcrot or newton_krylov on a random system (dense, normal, few distinct eigenvalues, low-rank update, "
    "singular), with random right-hand side scale, initial guess (absent, random, exact, exact on one process only), tolerance, restart, "
    "iteration limit, preconditioner and process count; the harness recomputes the residual of the returned vector and compares it with "
    "the reported residual, the convergence flag and the iteration history. Non-trivial: at least two operator applications."
)


def worker(rec, spec):
    import warnings
    import numpy as np
    from mpi4py import MPI
    from solvers import fgmres, gcrot, MatvecOp
    from solvers.nonlin import newton_krylov
    from vf import sims

    mon = MPI.COMM_WORLD.Dup()
    size, rank = mon.size, mon.rank
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    rng = np.random.default_rng([spec["seed"], 17, size])

    def gather(v):
        return np.concatenate(mon.allgather(np.ascontiguousarray(v)))

    def system(kind, n):
        k = int(rng.integers(2, 9))
        if kind == "dense":
            return np.eye(n) * 3 + rng.standard_normal((n, n)) / np.sqrt(n)
        if kind == "normal":
            Q = np.linalg.qr(rng.standard_normal((n, n)))[0]
            return Q @ np.diag(rng.choice(rng.uniform(0.5, 4, k), n)) @ Q.T
        if kind == "diag":
            return np.diag(rng.choice(rng.uniform(0.5, 4, k), n))
        if kind == "lowrank":
            return np.eye(n) * 2 + rng.standard_normal((n, k)) @ rng.standard_normal((k, n)) / n
        if kind == "slow":  # symmetric positive definite, a few hundred iterations
            return np.diag(np.linspace(0.03, 1, n))
        if kind == "hard":  # converges slowly: stops at the iteration limit
            return np.diag(np.linspace(0.01, 1, n)) + np.diag(np.full(n - 1, 0.5), 1)
        if kind == "singular":
            A = np.eye(n) * 2 + rng.standard_normal((n, n)) / np.sqrt(n)
            A[:, 0] = 0.0
            return A
        if kind == "blocks":
            A = np.zeros((n, n))
            m = n // size
            for p in range(size):
                s = slice(p * m, (p + 1) * m)
                A[s, s] = np.diag(rng.uniform(1, 3, m)) if p % 2 else 2 * np.eye(m) + rng.standard_normal((m, m)) / np.sqrt(m)
            return A

    def judge(name, key, A, b, x, reported, flag, tol, applied, given_ok):
        true = float(np.linalg.norm(b - A @ x))
        nb = float(np.linalg.norm(b))
        rec.count("solves")
        rec.count("solves_converged" if flag == 0 else "solves_not_converged")
        if rank == 0:
            rec.case(f"{name}|{key}", nontrivial=applied > 1)
        if not given_ok:
            rec.violation(f"{name}:input-modified", f"{name} changed the right-hand side or the initial guess ({key})")
        if not np.all(np.isfinite(x)):
            rec.violation(f"{name}:nonfinite", f"{name} returned a non-finite vector, flag {flag} ({key})")
            return
        noise = 1e-13 * (nb + float(np.linalg.norm(A)) * float(np.linalg.norm(x)))
        if not abs(true - reported) <= noise + 1e-10 * true:
            rec.violation(f"{name}:residual", f"{name} reports a residual norm {reported:.6e}; that of the vector it returned is {true:.6e} ({key})")
        if flag == 0 and not true <= tol * nb * (1 + 1e-6) + noise:
            rec.violation(f"{name}:false-success", f"{name} reports convergence; relative residual {true / nb:.3e}, tolerance {tol:.0e} ({key})")
        if flag != 0 and true < tol * nb * (1 - 1e-6) - noise:
            rec.violation(f"{name}:false-failure", f"{name} reports failure (flag {flag}); relative residual {true / nb:.3e}, tolerance {tol:.0e} ({key})")

    for it in range(spec["n"]):
        kind = str(rng.choice(["dense", "normal", "diag", "lowrank", "hard", "slow", "singular"] + (["blocks"] if size > 1 else [])))
        m = int(rng.integers(30, 70)) if size == 1 else int(rng.integers(24, 40))
        n = m * size
        A = system(kind, n)
        me = slice(rank * m, (rank + 1) * m)
        scale = 10.0 ** rng.choice([-20, -14, -9, -6, -5, -3, -2, -1, 0, 1, 3, 6])
        xs = rng.standard_normal(n)
        consistent = kind != "singular" or bool(rng.integers(2))
        b = A @ xs * scale if consistent else rng.standard_normal(n) * scale
        if rng.integers(12) == 0:
            b = np.zeros(n)
        xs = xs * scale
        start = str(rng.choice(["none", "none", "random", "exact", "partial"]))
        x0 = {"none": None, "random": rng.standard_normal(n) * scale, "exact": xs.copy(), "partial": np.where(np.arange(n) // m == size - 1, xs, 0.0)}[start]
        if kind in ("diag",) and start == "exact":
            x0 = np.round(x0 / scale * 64) / 64 * scale
            b = A @ x0  # often exactly zero residual
        tol = float(10.0 ** -rng.integers(2, 13))
        restart = int(rng.choice([3, 5, 10, 20]))
        maxiter = [1, 2, 8, 60, None][int(rng.integers(5))]
        hege = bool(rng.integers(5) == 0) and x0 is not None
        if kind == "slow":
            maxiter = None
        precond = str(rng.choice(["none", "none", "diag", "varying"]))
        D = 1.0 / np.abs(np.diag(A) + 1e-3) if precond == "diag" else np.ones(n)
        applied = [0]

        def op(v, A=A, me=me):
            applied[0] += 1
            return (A @ gather(v))[me]

        def pre(v):
            if precond == "varying":
                return v * (1.0 + 0.1 * np.sin(applied[0]))
            return v * D[me]

        key = f"{kind} n={n} b={scale:.0e} x0={start} tol={tol:.0e} restart={restart} maxiter={maxiter} precond={precond} hegedus={hege} it={it}"
        rec.begin(f"fgmres {key}")
        bl = b[me].copy()
        xl = None if x0 is None else x0[me].copy()
        b_, x_ = bl.copy(), None if xl is None else xl.copy()
        if maxiter is None and kind in ("hard", "singular"):
            maxiter = 40
        try:
            out = sims.quiet(fgmres, op, bl, x0=xl, tol=tol, restart=restart, maxiter=maxiter, preconditioner=None if precond == "none" else pre, hegedus=hege)
        except Exception as e:  # noqa
            if kind == "singular" and isinstance(e, (np.linalg.LinAlgError, ValueError)):
                rec.count("singular_refused")
                mon.Barrier()
                continue
            raise
        x, norm_r, norm_b, niter, flag, res = out
        same = mon.allgather((float(norm_r), int(niter), int(flag)))
        if len(set(same)) != 1 and not any(v[0] != v[0] for v in same):
            rec.violation("fgmres:processes", f"fgmres gave different results on different processes: {same[:4]} ({key})")
        if kind == "singular" and not np.all(np.isfinite(gather(x))):
            rec.count("singular_refused")
            if flag == 0:
                rec.violation("fgmres:nonfinite-success", f"fgmres returned a non-finite vector as converged ({key})")
            continue
        judge("fgmres", key, A, b, gather(x), float(norm_r), flag, tol, applied[0], np.array_equal(bl, b_) and (xl is None or np.array_equal(xl, x_)))
        hist = [r[0] for r in res]
        nb = float(np.linalg.norm(b))
        # with a positive definite symmetric part, restarted GMRES converges for every restart length
        if maxiter is None and precond != "diag" and tol >= 1e-11 and nb > 0:
            if np.linalg.eigvalsh((A + A.T) / 2)[0] > 0.02 * np.linalg.norm(A, 2):
                rec.count("must_converge")
                if flag != 0:
                    rec.violation("fgmres:gives-up", f"fgmres gave up on a well-posed system after {niter} iterations with relative residual {hist[-1]:.2e} ({key})")
        if nb > 0:
            if abs(float(norm_b) - nb) > 1e-12 * nb:
                rec.violation("fgmres:norm-b", f"fgmres reports |b| = {float(norm_b):.6e}, it is {nb:.6e} ({key})")
            if x0 is not None or not hege:
                ax = A @ (np.zeros(n) if x0 is None else x0)
                ksi = (b @ ax) / (ax @ ax) if hege and ax @ ax > 0 else 1.0  # the best multiple of the guess
                first = float(np.linalg.norm(b - ksi * ax)) / nb
                if abs(hist[0] - first) > 1e-9 * first + 1e-12 * (1 + float(np.linalg.norm(ax)) / nb):
                    rec.violation("fgmres:history", f"the first entry {hist[0]:.3e} of the residual history is not the residual {first:.3e} of the starting point ({key})")
            if abs(hist[-1] - float(norm_r) / nb) > 1e-12 * max(hist[-1], 1e-3):
                rec.violation("fgmres:history", f"the last entry {hist[-1]:.3e} of the residual history is not the final residual {float(norm_r) / nb:.3e} ({key})")
        if it < 3:
            rec.sample(f"fgmres {key}: {niter} iterations, flag {flag}, residual {float(norm_r) / max(nb, 1e-300):.2e}")

        if size == 1 and kind in ("dense", "normal", "lowrank", "diag") and start != "partial" and not hege:
            rec.begin(f"gcrot {key}")
            if rng.integers(2):
                gcrot.__dict__.pop("CU", None)
            elif getattr(gcrot, "CU", None) and gcrot.CU[0][1].shape[0] != n:
                gcrot.__dict__.pop("CU", None)  # the size does not change during a run
            for rep in range(3 if rng.integers(2) else 1):  # successive solves with an evolving operator
                A2 = A + rep * 0.02 * rng.standard_normal((n, n)) / np.sqrt(n)
                b2 = b * (1 + 0.1 * rep)
                kw = {} if maxiter is None else {"maxiter": maxiter}
                if rng.integers(2):
                    kw.update(m=int(rng.choice([3, 8, 20])), k=int(rng.choice([2, 6])))
                applied[0] = 0
                lin = MatvecOp(lambda v: op(v, A2), float, (n,))
                x, beta, ni, fl, _ = sims.quiet(gcrot, lin, b2, x0=x0, tol=tol, **kw)
                judge("gcrot", key + f" rep={rep} {kw}", A2, b2, x, float(beta), fl, tol, applied[0], True)

    def meet(msg):
        """All processes come here; one left alone for a minute reports it."""
        import time

        req, t0 = mon.Ibarrier(), time.time()
        while not req.Test():
            if time.time() - t0 > 60:
                rec.violation("newton:alone", msg)
                os._exit(3)
            if time.time() - t0 > 0.05:
                time.sleep(0.005)

    # Newton-Krylov: the root is a root
    for it in range(spec["newton"]):
        m = int(rng.integers(36, 60))
        n = m * size
        me = slice(rank * m, (rank + 1) * m)
        L = np.eye(n) * 2 + rng.standard_normal((n, n)) / np.sqrt(n) * 0.5
        root = rng.standard_normal(n)
        c = float(rng.uniform(0.0, 0.4))
        shift = L @ root + c * np.sin(root)
        big = 10.0 ** rng.integers(-3, 4)

        def F(q):
            v = gather(q.ravel())
            return big * (L @ v + c * np.sin(v) - shift)[me].reshape(q.shape)

        q0 = (root + rng.standard_normal(n) * rng.choice([0.0, 0.1, 1.0]))[me].reshape(-1, 2) if m % 2 == 0 else (root + 0.3)[me]
        tol = float(10.0 ** -rng.integers(4, 9)) * big
        ls = [None, "armijo"][int(rng.integers(2))]
        key = f"n={n} tol={tol:.0e} line_search={ls} it={it}"
        rec.begin(f"newton {key}")
        given = q0.copy()
        q, ni, res = sims.quiet(newton_krylov, F, q0, f_tol=tol, line_search=ls, maxiter=60)
        r = float(np.abs(gather(F(q).ravel())).max())
        rec.count("newton_solves")
        if rank == 0:
            rec.case(f"newton|{key}", nontrivial=ni > 0)
        if not np.array_equal(given, q0):
            rec.violation("newton:input-modified", f"newton_krylov changed the initial guess ({key})")
        if q.shape != q0.shape:
            rec.violation("newton:shape", f"newton_krylov returned shape {q.shape} for {q0.shape}")
        if not r <= tol * (1 + 1e-6):
            rec.violation("newton:residual", f"newton_krylov returned a point where |F| = {r:.3e}, tolerance {tol:.0e}, after {ni} iterations ({key})")
        if not abs(res[-1][0] - r) <= 1e-9 * r + 1e-12 * big:
            rec.violation("newton:history", f"newton_krylov's last residual {res[-1][0]:.3e} is not that of the point it returned {r:.3e} ({key})")

    # starts from which a full Newton step overshoots: all processes shorten it alike
    for it in range(spec["newton"]):
        m = int(rng.integers(32, 50))
        n = m * size
        me = slice(rank * m, (rank + 1) * m)
        x0 = rng.uniform(-1, 1, n) * rng.choice([0.1, 1.0, 2.0, 3.0], size).repeat(m)
        a, c = rng.uniform(-0.3, 0.3, n), float(rng.uniform(0, 0.15)) / n
        key = f"n={n} overshooting start on {size} processes it={it}"

        def F(q):
            meet(f"newton_krylov evaluates the residual on some of the {size} processes only ({key})")
            return 0.2 * q + np.arctan(4 * q) - a[me] + c * mon.allreduce(float(q.sum()))

        rec.begin(f"newton {key}")
        q, ni, res = sims.quiet(newton_krylov, F, x0[me].copy(), f_tol=1e-9, maxiter=100, line_search="armijo", fgmres_restart=30, fgmres_maxiter=50)
        r = float(np.abs(gather(F(q))).max())
        rec.count("newton_line_searches")
        if rank == 0:
            rec.case(f"newton|{key}", nontrivial=ni > 1)
        if not r <= 1e-9 * (1 + 1e-6):
            rec.violation("newton:residual", f"newton_krylov returned a point where |F| = {r:.3e}, tolerance 1e-9, after {ni} iterations ({key})")

    # an invalid residual on any single process is never taken for convergence
    for alone in range(size) if spec["newton"] else ():
        m = 40

        def F(q):
            r = 1e-3 * (q - 1.0)
            if rank == alone:
                r[m // 2] = np.nan
            return r

        key = f"invalid residual on process {alone} of {size}"
        rec.begin(f"newton {key}")
        try:
            q, ni, res = sims.quiet(newton_krylov, F, np.ones(m), f_tol=1e-6, line_search=None, maxiter=3)
            told = float(res[-1][0])
        except (ValueError, RuntimeError, ArithmeticError):
            told = float("inf")  # refused: fine as long as all processes are told (a process left alone would hang)
        rec.count("newton_invalid")
        if rank == 0:
            rec.case(f"newton-invalid|{size}|{alone}")
        if told <= 1e-6:
            rec.violation("newton:invalid", f"newton_krylov reports convergence (|F| = {told:.1e}) with an {key}")

    if spec.get("known"):
        # recorded finding: gcrot on several processes. The pieces travel through files, so that a process left alone notices.
        import time

        frng = np.random.default_rng(5)
        m = 20
        n = m * size
        A = np.eye(n) * 3 + frng.standard_normal((n, n)) / np.sqrt(n)
        b = frng.standard_normal(n)
        me = slice(rank * m, (rank + 1) * m)
        gcrot.__dict__.pop("CU", None)
        rec.begin("gcrot on several processes")
        calls = [0]

        class Alone(Exception):
            pass

        def fop(v):
            calls[0] += 1
            name = os.path.join(spec["out"], "piece.%d.%d")
            np.save(name % (calls[0], rank) + ".tmp.npy", v)
            os.replace(name % (calls[0], rank) + ".tmp.npy", name % (calls[0], rank) + ".npy")
            end = time.time() + 4
            parts = []
            for p in range(size):
                while not os.path.exists(name % (calls[0], p) + ".npy"):
                    if time.time() > end:
                        raise Alone()
                    time.sleep(0.001)
                parts.append(np.load(name % (calls[0], p) + ".npy"))
            return (A @ np.concatenate(parts))[me]

        mon.Barrier()
        x, what = np.zeros(m), ""
        try:
            x = sims.quiet(gcrot, MatvecOp(fop, float, (m,)), b[me].copy(), tol=1e-8, maxiter=4, m=12)[0]
        except Alone:
            what = "processes stop after different numbers of iterations (this blocks a run forever)"
        what = " ".join(sorted(set(mon.allgather(what)))).strip()
        true = float(np.linalg.norm(b - A @ gather(x)) / np.linalg.norm(b))
        if rank == 0 and (what or not true < 1e-6):
            rec.violation("gcrot:several-processes", f"gcrot does not solve a distributed system: {what or 'relative residual %.2e' % true}")


def drive(chk):
    me = "checks/c17.py"
    t = chk.thorough
    chk.run_worker(me, {"n": 3000 if t else 400, "newton": 60 if t else 12, "label": "np1"}, np=1, timeout=2400 if t else 300)
    chk.run_worker(me, {"n": 400 if t else 80, "newton": 15 if t else 4, "label": "np6", "known": True}, np=6, timeout=2400 if t else 120)
    chk.require("solves_converged", 200)
    chk.require("solves_not_converged", 40)
    chk.run_worker(me, {"n": 0, "newton": 40 if t else 8, "label": "np3"}, np=3, timeout=600 if t else 150)
    chk.require("newton_solves", 12)
    chk.require("newton_line_searches", 20)
    chk.require("newton_invalid", 2)
    chk.require("must_converge", 30)


if __name__ == "__main__":
    driver.main("C17", RULE, drive, worker)
