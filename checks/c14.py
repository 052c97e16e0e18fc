"""C14: the tendency is a function of the state's values alone, and its derivative is the one handed to the solvers."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one evaluation of the real tendencies in a random call history (real and complex states, other models evaluated in "
    "between, different memory layouts, results overwritten by the caller) compared with the evaluation by a fresh model, or one "
    "Jacobian-vector product compared with the limit of centred differences. Non-trivial: the state is not the initial state."
)


def perturbed(rng, Q, kind, amp=None):
    """A rough admissible state near Q."""
    import numpy as np

    amp = amp if amp is not None else float(rng.choice([1e-3, 0.02, 0.1]))
    u = lambda: rng.uniform(-1, 1, Q[0].shape)
    S = np.array(Q)
    wind = {"sw": 40.0, "euler": 30.0, "cart": 40.0}[kind]
    if kind == "sw":
        S[0] *= 1 + amp * u()
        scale = [np.abs(Q[k]).max() / 1e1 + 1e-12 for k in (1, 2)]
        for k in (1, 2):
            S[k] += scale[k - 1] * (u() + 0.13)
    elif kind == "cart":
        S[0] *= 1 + amp * u()
        S[3] *= 1 + amp * u()
        for k in (1, 2):
            S[k] = S[0] * wind * (u() + 0.13)
    else:
        S[0] *= 1 + amp * u()
        S[4] *= 1 + amp * u()
        for k in (1, 2):
            S[k] += S[0] * 3e-5 * (u() + 0.13)
        S[3] += S[0] * 2.0 * (u() + 0.13)
    return S


def layouts(rng, Q):
    """The same values in other memory layouts."""
    import numpy as np

    n = Q.ndim
    perm = rng.permutation(n)
    yield "permuted" + "".join(map(str, perm)), np.ascontiguousarray(Q.transpose(perm)).transpose(np.argsort(perm))
    yield "fortran", np.asfortranarray(Q)
    big = np.full(tuple(s * (2 if i == n - 1 else 1) for i, s in enumerate(Q.shape)), np.nan, dtype=Q.dtype)
    big[..., ::2] = Q
    yield "strided", big[..., ::2]
    rev = np.ascontiguousarray(Q[..., ::-1])
    yield "reversed", rev[..., ::-1]
    pad = np.full((Q.shape[0] + 2,) + Q.shape[1:], np.nan, dtype=Q.dtype)
    pad[1:-1] = Q
    yield "slice", pad[1:-1]
    raw = np.zeros(Q.nbytes + 64, dtype=np.uint8)[8:8 + Q.nbytes].view(Q.dtype).reshape(Q.shape)
    raw[...] = Q
    yield "shifted", raw
    ro = Q.copy()
    ro.flags.writeable = False
    yield "readonly", ro


def worker(rec, spec):
    import numpy as np
    from mpi4py import MPI
    from solvers.matvec import matvec_fun, MatvecOpRat
    from vf import eulref, glob, sims

    np.seterr(all="ignore")
    mon = MPI.COMM_WORLD.Dup()
    rng = np.random.default_rng([spec["seed"], 14, mon.size, mon.rank])
    common = np.random.default_rng([spec["seed"], 14, mon.size])  # decisions the processes take together

    def gmax(x):
        return mon.allreduce(float(x), MPI.MAX)

    def same(a, b, tol):
        """Largest difference relative to the largest value of each variable (over all processes)."""
        bad = 0.0
        for k in range(a.shape[0]):
            m = max(gmax(np.abs(b[k]).max()), 1e-300)
            d = np.abs(a[k] - b[k])
            bad = max(bad, gmax(np.inf if not np.all(np.isfinite(d)) else d.max()) / m)
        return bad if bad > tol else 0.0

    models = []
    for kw in spec["models"]:
        kind = kw.pop("kind")
        with_args = dict(kw)
        models.append((kind, with_args, sims.make(**with_args)))
    fresh = {}

    def reference(i, Q):
        """Evaluation by a model that has never been used."""
        return sims.make(**models[i][1]).rhs.full(Q)

    names = [f"{m[1].get('case')}{'cart' if m[1].get('cart') else ''}ns{m[1].get('ns')}" for m in models]
    history = []
    kept = []
    for it in range(spec["n"]):
        i = int(common.integers(len(models)))
        kind, _, sim = models[i]
        Q = perturbed(rng, sim.initial_Q, kind)
        cplx = bool(common.integers(3) == 0)
        if cplx:
            Q = Q + 1j * 1e-8 * (perturbed(rng, sim.initial_Q, kind) - Q)
        desc = f"{names[i]} {'complex' if cplx else 'real'} it={it} np={mon.size} after {history[-3:]}"
        rec.begin(desc)
        given = Q.copy()
        r = sim.rhs.full(given)
        if not np.array_equal(given, Q):
            rec.violation(f"{kind}:state-modified", f"evaluating the tendency changed the state it was given ({desc})")
        if r.shape != Q.shape or r.dtype != Q.dtype:
            rec.violation(f"{kind}:shape", f"tendency has shape {r.shape}/{r.dtype}, state {Q.shape}/{Q.dtype} ({desc})")
            continue
        if np.shares_memory(r, given):
            rec.violation(f"{kind}:aliases-state", f"the tendency shares memory with the state ({desc})")
        history.append(names[i] + ("c" if cplx else ""))
        ref = reference(i, Q)
        parts = [(r, ref)] if not cplx else [(r.real, ref.real), (r.imag, ref.imag)]
        for a, b in parts:
            bad = same(a, b, 1e-11)
            if bad:
                rec.violation(f"{kind}:history", f"the tendency depends on what was evaluated before: differs by {bad:.2e} from a fresh model ({desc})")
        kept.append((desc, kind, r, r.copy()))
        if len(kept) > 6:
            kept.pop(0)
        for d, k, arr, copy in kept:
            if not np.array_equal(arr, copy, equal_nan=True):
                rec.violation(f"{k}:result-overwritten", f"a tendency returned earlier ({d}) changed when another was computed ({desc})")
        rec.count("tendencies_against_fresh_model")
        # the caller may do what it likes with the result
        if common.integers(4) == 0:
            scratch = sim.rhs.full(Q)
            scratch[...] = 1e30
            again = sim.rhs.full(Q)
            if same(again.real, r.real, 1e-11):
                rec.violation(f"{kind}:result-shared", f"overwriting a returned tendency changed the next one ({desc})")
        # memory layout
        for lname, L in layouts(common, Q):
            if common.integers(2):
                continue
            rec.begin(f"layout {lname} {desc}")
            a = sim.rhs.full(L)
            for x, y in [(a, r)] if not cplx else [(a.real, r.real), (a.imag, r.imag)]:
                bad = same(x, y, 1e-10)
                if bad:
                    rec.violation(f"{kind}:layout", f"the tendency depends on how the state is laid out in memory ({lname}): differs by {bad:.2e} ({desc})")
            rec.count("layouts_compared")
        # a real state handed over as complex numbers
        if not cplx and common.integers(2):
            a = sim.rhs.full(Q.astype(complex))
            if same(a.real, r, 1e-11):
                rec.violation(f"{kind}:complex-real-part", f"the tendency of a state depends on its number type ({desc})")
            if np.abs(a.imag).max() > 0:
                rec.violation(f"{kind}:complex-imag-part", f"a real state gives a tendency with an imaginary part ({desc})")
            rec.count("real_as_complex")
        if kind == "sw" and common.integers(2):
            a = sim.rhs.full(Q.ravel())
            if a.shape != (Q.size,) or same(a.reshape(Q.shape).real, r.real, 1e-11):
                rec.violation(f"{kind}:flattened", f"the tendency of the flattened state differs ({desc})")
        if mon.rank == 0:
            rec.case(desc)

    def frozen_eigenvalues(sim, kw, Q, V, e, dt, d, j):
        """Whether the product differs from the derivative exactly by the derivative of the absolute velocity in the interface dissipation."""
        c, g = sim.config, sim.geometry
        GQ, GV, Gd = (glob.gather(mon, np.ascontiguousarray(x), 2) for x in (Q, V, d - j))
        ok = None
        if mon.rank == 0:
            ref = eulref.Reference(c.num_elements_horizontal, c.num_elements_vertical, c.num_solpts, g.earth_radius, c.ztop, c.depth_approx == "deep",
                                   g.rotation_speed, c.lambda0, c.phi0, c.alpha0)
            miss = np.zeros(GQ.shape)
            for w, s in ((8, 1), (-8, -1), (-1, 2), (1, -2)):
                S = GQ + s * e * GV
                miss += dt * w * (ref.rhs(S) - ref.frozen(GQ, S)) / (12 * e)
            ok = True
            for k in range(5):
                scale = np.max(np.abs(miss[:, k]))
                ok = ok and np.max(np.abs(Gd[:, k] - miss[:, k])) <= 0.01 * scale
                if os.environ.get("VF_DEBUG"):
                    print("frozen", kw, k, e, np.max(np.abs(Gd[:, k])), scale, np.max(np.abs(Gd[:, k] - miss[:, k])) / scale)
        return mon.bcast(ok)

    # Jacobian-vector products
    for it in range(spec["jac"]):
        i = int(common.integers(len(models)))
        kind, kw, sim = models[i]
        if kind == "euler" and sim.config.case_number == 21:
            continue
        Q = perturbed(rng, sim.initial_Q, kind, 0.02)
        V = perturbed(rng, sim.initial_Q, kind, 0.05) - Q
        if common.integers(3) == 0:  # a direction on one process only
            V *= float(mon.rank == int(common.integers(mon.size)))
        dt = float(common.choice([1.0, 30.0, 1800.0]))
        f = sim.rhs.full
        desc = f"jacobian {names[i]} dt={dt} it={it} np={mon.size}"
        rec.begin(desc)
        base = f(Q)
        Qg, Vg = Q.copy(), V.ravel().copy()
        j = matvec_fun(Vg, dt, Qg, base, f)
        if not (np.array_equal(Qg, Q) and np.array_equal(Vg, V.ravel())):
            rec.violation(f"{kind}:jacobian-inputs", f"a Jacobian product modified its inputs ({desc})")
        if j.shape != (Q.size,) or j.dtype != np.float64:
            rec.violation(f"{kind}:jacobian-shape", f"Jacobian product of shape {j.shape} type {j.dtype} ({desc})")
            continue
        j = j.reshape(Q.shape)
        # best agreement over several increments: a kink between two of the states spoils only the larger ones
        best, known, true = np.inf, False, None
        for e in (1e-3, 3e-4, 1e-4, 3e-5, 1e-5, 3e-6, 1e-6):
            d = dt * (8 * (f(Q + e * V) - f(Q - e * V)) - (f(Q + 2 * e * V) - f(Q - 2 * e * V))) / (12 * e)
            worst = 0.0
            for k in range(Q.shape[0]):
                m = max(gmax(np.abs(d[k]).max()), gmax(np.abs(dt * base[k]).max()) * 1e-6, 1e-300)
                worst = max(worst, gmax(np.abs(d[k] - j[k]).max()) / m)
            true = d if worst < best else true
            best = min(best, worst)
            if best < 1e-7:
                break
            if kind == "euler" and best > 1e-5 and not known:
                known = frozen_eigenvalues(sim, kw, Q, V, e, dt, d, j)
        rec.count("jacobian_products")
        if not best < 1e-5 and known:
            rec.violation("euler:jacobian:frozen-eigenvalues", "the complex-step Jacobian-vector product of the 3-D Euler model leaves out the derivative of the absolute velocity "
                          f"in the interface dissipation ({best:.2e} relative; {desc})")
        elif not best < 1e-5:
            rec.violation(f"{kind}:jacobian", f"Jacobian-vector product differs by {best:.2e} (relative) from the derivative of the tendency ({desc})")
        # linear in the vector
        W = perturbed(rng, sim.initial_Q, kind, 0.05) - Q
        a, b = 0.7, -1.3
        lhs = matvec_fun((a * V + b * W).ravel(), dt, Q, base, f).reshape(Q.shape)
        rhs = a * j + b * matvec_fun(W.ravel(), dt, Q, base, f).reshape(Q.shape)
        if same(lhs, rhs, 1e-9):
            rec.violation(f"{kind}:jacobian-linear", f"Jacobian-vector products are not linear in the vector ({desc})")
        # the finite-difference variant, and the operator of the implicit schemes, to their lower accuracy
        jf = matvec_fun(V.ravel(), dt, Q, base, f, method="fd").reshape(Q.shape)
        bad = same(jf, j if true is None else true, 0.02)
        if bad:
            rec.violation(f"{kind}:jacobian-fd", f"finite-difference Jacobian product is off by {bad:.2e} ({desc})")
        op = MatvecOpRat(dt, Q, base, f)(V.ravel()).reshape(Q.shape)
        if same(op - V, -0.5 * jf, 1e-6):
            rec.violation(f"{kind}:rational", f"operator I - dt/2 J is not consistent with J ({desc})")
        if mon.rank == 0:
            rec.case(desc)


def drive(chk):
    me = "checks/c14.py"
    t = chk.thorough
    n, j = (60, 40) if t else (12, 8)
    sph = [dict(kind="sw", case=6, nel=2, ns=4, lambda0=0.3, phi0=-0.4, alpha0=0.2), dict(kind="sw", case=5, nel=2, ns=3),
           dict(kind="euler", case=31, nel=2, ns=3, nev=2), dict(kind="euler", case=21, nel=2, ns=3, nev=2, lambda0=0.5), dict(kind="euler", case=77, nel=2, ns=2, nev=3)]
    car = [dict(kind="cart", cart=True, case=2, nelx=4, nelz=3, ns=3), dict(kind="cart", cart=True, case=2, nelx=1, nelz=5, ns=4),
           dict(kind="cart", cart=True, case=2, nelx=6, nelz=1, ns=2)]
    chk.run_worker(me, {"models": car, "n": 8 * n, "jac": 6 * j, "label": "cart"}, np=1, timeout=300 if not t else 2400)
    chk.run_worker(me, {"models": sph, "n": 2 * n, "jac": 2 * j, "label": "np6"}, np=6, timeout=400 if not t else 3000)
    if t:
        big = [dict(m, nel=4) for m in sph]
        chk.run_worker(me, {"models": big, "n": n, "jac": j, "label": "np24"}, np=24, timeout=3000)
    chk.require("tendencies_against_fresh_model", 60)
    chk.require("layouts_compared", 60)
    chk.require("jacobian_products", 50)


if __name__ == "__main__":
    driver.main("C14", RULE, drive, worker)
