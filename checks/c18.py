"""C18: the compiled kernels touch only the memory they are given and fill their outputs completely and correctly."""
import glob, os, re, shutil, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver, env as venv

RULE = (
    "A case is one call of a compiled kernel: random numbers of elements in each direction (single elements and strongly rectangular "
    "grids included), points per element, real or complex numbers, and physical states. The kernels are rebuilt from the current tree "
    "with address and undefined-behaviour sanitizers and run on exactly sized arrays; the normally built kernels run on the same inputs "
    "inside arrays with guard bands. Every output value is compared with an independent model, inputs must stay untouched, and whole box "
    "simulations run on the sanitized kernels. Non-trivial: more than one element."
)


def sanitized(rec, spec):
    import importlib.machinery
    import importlib.util

    loader = importlib.machinery.ExtensionFileLoader("pde_cpp", spec["lib"])
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader("pde_cpp", loader))
    loader.exec_module(m)
    return m


def worker(rec, spec):
    import logging
    import numpy as np
    from mpi4py import MPI

    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    from compiler import compile_kernels
    from vf import cartref

    san = bool(spec.get("lib"))
    mod = sanitized(rec, spec) if san else compile_kernels.load_module("pde", "cpp")
    name = "sanitized" if san else "normal"
    rng = np.random.default_rng([spec["seed"], 18])  # (the same inputs for both builds)
    GUARD = -7.77e77
    guards = []

    def alloc(shape, cplx, fill=None):
        n = int(np.prod(shape))
        dt = complex if cplx else float
        if san:  # exactly sized: the sanitizer watches its ends
            a = np.empty(n, dtype=dt)
        else:  # inside guard bands
            pad = 64
            buf = np.full(n + 2 * pad, GUARD, dtype=dt)
            guards.append((buf, n, pad))
            a = buf[pad: pad + n]
        a = a.reshape(shape)
        a[...] = np.nan if fill is None else fill
        return a

    def check_guards(key, what):
        for buf, n, pad in guards:
            if np.any(buf[:pad] != GUARD) or np.any(buf[pad + n:] != GUARD):
                rec.violation(f"{key}:out-of-bounds", f"{key} wrote outside its arrays ({what})")
        guards.clear()

    def compare(key, got, ref, what, tol=1e-11):
        rec.count("values_compared", got.size)
        if not np.all(np.isfinite(got)):
            rec.violation(f"{key}:unset", f"{key} left {int(np.sum(~np.isfinite(got)))} of {got.size} output values unset or not finite ({what})")
            return
        for v in range(len(ref)):
            scale = np.max(np.abs(ref[v])) + 1e-3 * np.max(np.abs(ref)) + 1e-300
            d = np.max(np.abs(got[v].real - ref[v].real)) if got[v].size else 0.0
            if d > tol * scale:
                rec.violation(f"{key}:value", f"{key} differs from the model by {d:.2e} of {scale:.2e} in variable {v} ({what})")
            if np.iscomplexobj(got):
                si = np.max(np.abs(ref[v].imag)) + 1e-3 * np.max(np.abs(ref.imag)) + 1e-300
                di = np.max(np.abs(got[v].imag - ref[v].imag)) if got[v].size else 0.0
                if di > 1e-9 * si:
                    rec.violation(f"{key}:imaginary", f"the imaginary part of {key} differs by {di:.2e} of {si:.2e} in variable {v} ({what})")

    def state(shape, cplx):
        r = rng.uniform(0.3, 1.5, shape)
        q = np.stack([r, r * rng.uniform(-120, 120, shape), r * rng.uniform(-120, 120, shape), r * rng.uniform(250, 400, shape)])
        if cplx:
            eps = 10.0 ** rng.integers(-30, -3)
            q = q + 1j * eps * q * rng.standard_normal(q.shape)
        return q

    def unchanged(key, arrays, copies, what):
        for a, c in zip(arrays, copies):
            if not np.array_equal(a, c):
                rec.violation(f"{key}:input-changed", f"{key} changed one of its inputs ({what})")

    n_cases = spec["cases"]
    for k in range(n_cases):
        ns = int(rng.integers(1, 9)) if k % 9 else 1
        nx = int(rng.integers(1, 8)) if k % 5 else 1
        nz = int(rng.integers(1, 8)) if k % 7 else 1
        if k % 6 == 1:
            nx, nz = sorted((nx, nz * 6))
        if k % 6 == 2:
            nz, nx = sorted((nx * 6, nz))
        cplx = bool(k % 2)
        what = f"{nx}x{nz} elements, {ns} points, {'complex' if cplx else 'real'}, {name} build"
        rec.begin(what)
        # point-wise fluxes
        shape = (4, nz, nx, ns * ns)
        q = alloc(shape, cplx)
        q[...] = state(shape[1:], cplx)
        c = q.copy()
        f1, f2 = alloc(shape, cplx), alloc(shape, cplx)
        mod.pointwise_eulercartesian_2d(q, f1, f2, nx, nz, ns * ns)
        unchanged("pointwise", [q], [c], what)
        compare("pointwise-x", f1, cartref.flux(c, 0), what)
        compare("pointwise-z", f2, cartref.flux(c, 1), what)
        check_guards("pointwise", what)
        # interface fluxes
        shape = (4, nz, nx, 2 * ns)
        qx, qz = alloc(shape, cplx), alloc(shape, cplx)
        qx[...], qz[...] = state(shape[1:], cplx), state(shape[1:], cplx)
        cx, cz = qx.copy(), qz.copy()
        fx, fz = alloc(shape, cplx), alloc(shape, cplx)
        mod.riemann_eulercartesian_ausm_2d(qx, qz, fx, fz, nx, nz, ns)
        unchanged("riemann", [qx, qz], [cx, cz], what)
        ref = np.full(shape, np.nan, dtype=cx.dtype)
        common = cartref.ausm(cx[:, :, :-1, ns:], cx[:, :, 1:, :ns], 0)
        ref[:, :, :-1, ns:] = common
        ref[:, :, 1:, :ns] = common
        ref[:, :, 0, :ns] = cartref.wall(cx[:, :, 0, :ns], 0)
        ref[:, :, -1, ns:] = cartref.wall(cx[:, :, -1, ns:], 0)
        compare("riemann-x", fx, ref, what)
        common = cartref.ausm(cz[:, :-1, :, ns:], cz[:, 1:, :, :ns], 1)
        ref = np.full(shape, np.nan, dtype=cx.dtype)
        ref[:, :-1, :, ns:] = common
        ref[:, 1:, :, :ns] = common
        ref[:, 0, :, :ns] = cartref.wall(cz[:, 0, :, :ns], 1)
        ref[:, -1, :, ns:] = cartref.wall(cz[:, -1, :, ns:], 1)
        compare("riemann-z", fz, ref, what)
        check_guards("riemann", what)
        # three-dimensional forcing
        n1, n2, n3, s3 = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4)) ** 3
        loc = (n3, n2, n1, s3)
        q = alloc((5,) + loc, cplx)
        q[:4] = rng.uniform(0.3, 2, (4,) + loc) * np.array([1, 20, -30, 3.0]).reshape(4, 1, 1, 1, 1)
        q[4] = 300 * q[0]
        p, g, h, ch = alloc(loc, cplx), alloc(loc, False), alloc((9,) + loc, False), alloc((27,) + loc, False)
        p[...] = rng.uniform(1e4, 1e5, loc)
        if cplx:
            q += 1e-20j * rng.standard_normal(q.shape) * q.real
            p += 1e-16j * rng.standard_normal(p.shape)
        g[...] = rng.uniform(0.5, 2, loc)
        m = rng.standard_normal((3, 3) + loc)
        m = m + np.swapaxes(m, 0, 1)
        h[...] = m.reshape((9,) + loc) * 1e-3
        ch[...] = rng.standard_normal(ch.shape) * 1e-2
        ins = [q, p, g, h, ch]
        cps = [a.copy() for a in ins]
        mark = 3.25
        f = alloc((5,) + loc, cplx, mark)
        mod.forcing_euler_cubesphere_3d(q, p, g, h, ch, f, n1, n2, n3, s3, 0)
        what3 = f"{n1}x{n2}x{n3} elements, {s3} points, {'complex' if cplx else 'real'}, {name} build"
        unchanged("forcing", ins, cps, what3)
        if np.any(f[0] != mark) or np.any(f[4] != mark):
            rec.violation("forcing:other-variables", f"the forcing of density or temperature was overwritten ({what3})")
        u = q[1:4] / q[0]
        C = ch.reshape((3, 9) + loc)
        pairs = {(0, 0): 3, (0, 1): 4, (0, 2): 5, (1, 1): 6, (1, 2): 7, (2, 2): 8}
        ref = np.zeros((3,) + loc, dtype=q.dtype)
        for i in range(3):
            for j in range(3):
                ref[i] += 2 * q[0] * C[i, j] * u[j]
                for l in range(3):
                    ref[i] += C[i, pairs[tuple(sorted((j, l)))]] * (q[0] * u[j] * u[l] + h[3 * min(j, l) + max(j, l)] * p)
        compare("forcing", f[1:4], ref, what3)
        check_guards("forcing", what3)
        rec.count("kernel_calls", 3)
        rec.case(f"{name}:{nx}x{nz}:{ns}:{cplx}", nx * nz > 1)
    rec.sample(f"{name} build: {what}")

    # whole simulations of the box on this build of the kernels
    from vf import sims

    compile_kernels.load_module = lambda *a: mod
    for nx, nz, ns, integ in spec["sims"]:
        rec.begin(f"box {nx}x{nz} {ns} {integ} {name}")
        sim = sims.make(cart=True, case=2, nelx=nx, nelz=nz, ns=ns, integrator=integ, dt=0.02, t_end=0.06)
        Q = sim.initial_Q
        for _ in range(2):
            Q = sims.quiet(sim.integrator.step, Q, 0.02)
        if not np.all(np.isfinite(Q)):
            rec.violation("box:not-finite", f"box simulation {nx}x{nz}, {ns} points, {integ}: the state is not finite")
        rec.count("simulation_steps", 2)
        rec.case(f"box:{nx}x{nz}:{ns}:{integ}")


def reports(path):
    """Sanitizer reports that involve the kernels, one key per kind and function."""
    out = {}
    for f in glob.glob(path + "*"):
        text = open(f, errors="replace").read()
        for m in re.finditer(r"ERROR: AddressSanitizer: (\S+).*?(?=\n=====|\Z)", text, re.S):
            frames = re.findall(r"#\d+ \S+ in (.+?) (\S*wx_factory/pde/\S+?):(\d+)", m.group(0)[:8000])
            if frames:
                fn, file, line = frames[0]
                out.setdefault(f"address:{m.group(1)}:{os.path.basename(file)}", f"{m.group(1)} in {fn[:80]} ({os.path.basename(file)}:{line})")
        for m in re.finditer(r"(\S*wx_factory/pde/\S+?):(\d+):\d+: runtime error: ([^\n]+)", text):
            kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3))[:60]
            out.setdefault(f"undefined:{kind}", f"{m.group(3)} at {os.path.basename(m.group(1))}:{m.group(2)}")
    return out


def drive(chk):
    inc = subprocess.run([venv.PY, "-m", "pybind11", "--includes"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    src = sorted(glob.glob(os.path.join(venv.REPO, "wx_factory", "pde", "**", "*.cpp"), recursive=True))
    lib = os.path.join(chk.scratch, "pde_cpp_san.so")
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    stdcpp = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    preload = ":".join(os.path.realpath(p) for p in (asan, stdcpp))
    cmd = ["g++", "-O0", "-g1", "-shared", "-std=c++11", "-fPIC", "-fsanitize=address,undefined", "-fsanitize-recover=all",
           "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"] + inc + src + ["-o", lib]
    build = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=venv.child_env())
    cases = 60 if chk.tier == "quick" else 600
    boxes = [[3, 5, 3, "tvdrk3"], [4, 1, 2, "epi2"], [1, 3, 4, "tvdrk3"], [5, 2, 5, "ros2"]]
    if chk.tier != "quick":
        boxes += [[7, 3, 4, "rosexp2"], [2, 9, 3, "epi3"], [6, 6, 6, "srerk3"], [1, 1, 5, "tvdrk3"], [12, 2, 2, "backward_euler"]]
    chk.run_worker("checks/c18.py", {"cases": cases, "sims": []}, np=1, timeout=240, label="normal", mpirun=False)
    text = build.communicate()[0]
    if build.returncode:
        chk.error("cannot build the kernels with sanitizers:\n" + text[-3000:])
        return
    chk.count("sanitized_sources", len(src))
    logp = os.path.join(chk.scratch, "san.log")
    extra = {
        "ASAN_OPTIONS": f"detect_leaks=0:halt_on_error=0:log_path={logp}:handle_segv=0:allocator_may_return_null=1:exitcode=0:detect_stack_use_after_return=1",
        "UBSAN_OPTIONS": f"print_stacktrace=1:halt_on_error=0:log_path={logp}",
        "PYTHONMALLOC": "malloc",
    }
    chk.run_worker("checks/c18.py", {"cases": cases, "sims": boxes, "lib": lib}, np=1, timeout=400, extra_env=extra, label="sanitized",
                   mpirun=False, python=["env", f"LD_PRELOAD={preload}", venv.PY])
    if os.environ.get("VF_DEBUG"):
        for f in glob.glob(logp + "*"):
            print(open(f).read()[:3000])
    for key, msg in reports(logp).items():
        chk.violation(key, "sanitizer report: " + msg)
    # the monitors must be alive: a deliberate overrun of a kernel argument in a helper of ours is not possible without touching the
    # kernels, so the presence of the instrumented runtime is verified instead
    syms = subprocess.run(["nm", "-D", lib], stdout=subprocess.PIPE, text=True).stdout
    if "__asan_report_load" not in syms and "__asan_load" not in syms and "__asan_report" not in syms:
        chk.error("the kernels were built without instrumentation")
    chk.require("sanitized_sources", 1)
    chk.require("kernel_calls", 6 * cases)
    chk.require("simulation_steps", 8)


if __name__ == "__main__":
    driver.main("C18", RULE, drive, worker)
