"""C25: the program ends with success exactly when the run was completed, and its options do what they say."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one launch of the program itself (mpirun ... WxFactory options file) in a scratch folder, with a valid configuration, a missing, "
    "unreadable or invalid one, an unsuitable number of processes, a run that becomes invalid, a solver that cannot converge, or an output folder that cannot be made. Observed: exit status, "
    "time to end, standard output and error, and every file left behind; completed runs must leave the same final state bit for bit as the library called "
    "directly, whatever reporting options are given. Non-trivial: the program was started."
)


def drive(chk):
    import concurrent.futures, glob, json, re, shutil, signal, subprocess, tempfile, time
    import numpy as np
    from vf import env, sims

    r = np.random.default_rng([chk.seed, 25])
    root = os.path.join(chk.scratch, "cli")
    os.makedirs(root)
    limit = 120

    def folder():
        d = tempfile.mkdtemp(prefix="l_", dir=root)
        for n in ("config", "wx_factory"):
            os.symlink(os.path.join(env.REPO, n), os.path.join(d, n))
        return d

    def launch(np_, args, cwd):
        log = {k: open(os.path.join(cwd, f".{k}"), "wb") for k in ("out", "err")}
        t = time.time()
        p = subprocess.Popen((["mpirun", "-n", str(np_)] if np_ else []) + [env.PY, os.path.join(env.REPO, "WxFactory")] + args, cwd=cwd, env=env.child_env(),
                             stdout=log["out"], stderr=log["err"], start_new_session=True, stdin=subprocess.DEVNULL)
        status = None
        try:
            status = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            for pid in [x for x in os.listdir("/proc") if x.isdigit()]:  # its processes: those that run in the scratch folder
                try:
                    if os.readlink(f"/proc/{pid}/cwd") == cwd:
                        os.kill(int(pid), signal.SIGKILL)
                except OSError:
                    pass
        for f in log.values():
            f.close()
        text = {k: open(os.path.join(cwd, f".{k}"), errors="replace").read() for k in log}
        return status, text["out"], text["err"], time.time() - t

    def products(cwd):
        """Files left behind (relative), other than what the harness put there."""
        out = []
        for d, dirs, files in os.walk(cwd):
            dirs[:] = [x for x in dirs if not os.path.islink(os.path.join(d, x)) and x != "__pycache__"]
            out += [os.path.relpath(os.path.join(d, f), cwd) for f in files]
        return sorted(f for f in out if f not in (".out", ".err", "run.ini"))

    def opts(kind):
        k = dict(dt=float(r.choice([50.0, 100.0])), nel=4, ns=int(r.integers(2, 4)))
        if kind == "sw":
            o = dict(case=int(r.choice([2, 5, 6])), integrator=str(r.choice(["tvdrk3", "epi2", "ros2"])), tolerance=1e-7, **k)
        elif kind == "box":
            o = dict(cart=True, case=2, nelx=3, nelz=3, ns=3, dt=0.2, integrator=str(r.choice(["ros2", "tvdrk3", "epi2"])), tolerance=1e-7)
            if o["integrator"] == "tvdrk3":
                o["dt"] = 0.05
        else:
            o = dict(case=31, nev=2, integrator=str(r.choice(["tvdrk3", "ros2"])), tolerance=1e-6, **dict(k, dt=0.2, ns=2))
        n = int(r.integers(2, 5))
        o["t_end"] = o["dt"] * (n - float(r.choice([0.0, 0.5])))
        return o, n

    jobs = []  # (name, function)

    def write(cwd, text):
        with open(os.path.join(cwd, "run.ini"), "w") as f:
            f.write(text)

    def completed(kind, np_, flags, both=chk.thorough):
        o, n = opts(kind)

        def job():
            cwd = folder()
            o2 = dict(o, output_dir=os.path.join(cwd, "results"), save_state_freq=n)
            if kind == "sw":
                o2.update(output_freq=1, stat_freq=1)
            write(cwd, sims.config_text(**o2))
            # a: without flags, b: with, then the library; same folder (the checkpoints contain the configuration)
            got = []
            for fl in ([[], flags] if both else [flags]):
                shutil.rmtree(os.path.join(cwd, "results"), ignore_errors=True)
                st, out, err, _ = launch(np_, fl + ["run.ini"], cwd)
                steps = [int(x) for x in re.findall(r"^Step (\d+) of", out, re.M)]
                saved = sorted(glob.glob(os.path.join(cwd, "results", f"*.{n:08d}.npy")))
                got.append((fl, st, steps, open(saved[0], "rb").read() if len(saved) == 1 else None, err))
                if "--profile" in fl:
                    prof = [f for f in products(cwd) if re.fullmatch(r"prof_\d+\.out", f)]
                    yield ("count", "profiles", len(prof))
                    if len(prof) != max(np_, 1):
                        yield ("violation", "profile", f"{len(prof)} profiles for {np_} processes ({kind}, {fl})")
            shutil.rmtree(os.path.join(cwd, "results"), ignore_errors=True)
            yield ("library", cwd, np_)
            saved = sorted(glob.glob(os.path.join(cwd, "results", f"*.{n:08d}.npy")))
            ref = open(saved[0], "rb").read() if len(saved) == 1 else None
            for fl, st, steps, data, err in got:
                yield ("case", f"{kind} {o} np{np_} {fl}", None)
                yield ("count", "completed_runs", 1)
                if st is None:
                    yield ("violation", "completed:hang", f"the program did not end within {limit} s ({kind} {o} np{np_} {fl})")
                elif st != 0:
                    yield ("violation", "completed:status", f"exit status {st} for a run that can be completed ({kind} {o} np{np_} {fl}): {err[-800:]}")
                elif steps != list(range(1, n + 1)):
                    yield ("violation", "completed:steps", f"steps {steps} instead of 1..{n} ({kind} {o} np{np_} {fl})")
                elif data is None or data != ref:
                    yield ("violation", "completed:state", f"final state differs from that of the library ({kind} {o} np{np_} {fl})")

        jobs.append(job)

    def failing(name, np_, text=None, args=None, nothing=True, prepare=None, started=False):
        def job():
            cwd = folder()
            if text is not None:
                write(cwd, text.replace("@", cwd))
            if prepare is not None:
                prepare(cwd)
            st, out, err, dt = launch(np_, ["run.ini"] if args is None else args, cwd)
            yield ("case", f"{name} np{np_}", None)
            yield ("count", "failing_runs", 1)
            if st is None:
                yield ("violation", f"failure:hang:{name}", f"the program did not end within {limit} s ({name}, {np_} processes): {out[-300:]} {err[-600:]}")
            elif st == 0:
                yield ("violation", f"failure:status:{name}", f"the program ended with success ({name}, {np_} processes): {out[-300:]}")
            elif not err.strip():
                yield ("violation", f"failure:silent:{name}", f"no message on standard error ({name}, {np_} processes)")
            if nothing and not started:
                left = [f for f in products(cwd) if f not in ("blocked",)]
                if left or "Step 1 of" in out:
                    yield ("violation", f"failure:started:{name}", f"the run was started, or files were left ({left[:4]}), although it cannot run ({name}, {np_} processes)")
            if started:
                steps = [int(x) for x in re.findall(r"^Step (\d+) of", out, re.M)]
                files = sorted(int(x) for f in products(cwd) for x in re.findall(r"\.(\d{8})\.npy$", f))
                yield ("count", "interrupted_runs", 1)
                if not steps:
                    yield ("violation", f"failure:early:{name}", f"the run was not started ({name}, {np_} processes): {err[-500:]}")
                    return
                total = [int(x) for x in re.findall(r"^Step \d+ of (\d+)", out, re.M)][-1]
                if steps[-1] == total:
                    yield ("violation", f"failure:continued:{name}", f"the run went on to its last step ({total}) although {name} ({np_} processes)")
                want = list(range(0, steps[-1] + (1 if started == "kept" else 0)))
                if files != want and files != want[1:]:
                    yield ("violation", f"failure:files:{name}", f"checkpoints {files} after a run interrupted in step {steps[-1]} ({name}, {np_} processes)")
                nc = [f for f in products(cwd) if f.endswith(".nc")]
                if nc:
                    code = f"import netCDF4,sys; f=netCDF4.Dataset({os.path.join(cwd, nc[0])!r}); print(len(f.dimensions['time']))"
                    p = subprocess.run([env.PY, "-c", code], env=env.child_env(), capture_output=True, text=True)
                    yield ("count", "interrupted_files", 1)
                    if p.returncode != 0 or int(p.stdout) != len(want):
                        yield ("violation", f"failure:output:{name}", f"output file of an interrupted run holds {p.stdout.strip()} records instead of {len(want)} ({name}): {p.stderr[-300:]}")

        jobs.append(job)

    def listing(nel, try_counts):
        o = dict(case=int(r.choice([2, 5, 6])), nel=nel, ns=2, dt=50.0, t_end=50.0)

        def job():
            lists = []
            for np_ in (1, 6):
                cwd = folder()
                write(cwd, sims.config_text(output_dir=os.path.join(cwd, "results"), **o))
                st, out, err, _ = launch(np_, ["--allowed-proc-count", "run.ini"], cwd)
                m = re.findall(r"^\s*\[([\d, ]+)\]\s*$", out, re.M)
                lists.append((st, m[-1] if m else None, products(cwd)))
                yield ("case", f"listing {nel} np{np_}", None)
                yield ("count", "listings", 1)
            if any(st != 0 or m is None or left for st, m, left in lists) or len({m for _, m, _ in lists}) != 1:
                yield ("violation", "allowed counts", f"--allowed-proc-count gave {lists} (status, list, files left) for {nel} elements")
                return
            allowed = [int(x) for x in lists[0][1].split(",")]
            odd = [c for c in allowed if c not in [6 * k * k for k in range(1, nel + 1) if nel % k == 0]]
            if odd:
                yield ("violation", "allowed counts", f"counts {odd} are given as allowed, although {nel} elements cannot be shared evenly among them")
            for np_ in try_counts:
                cwd = folder()
                write(cwd, sims.config_text(output_dir=os.path.join(cwd, "results"), **o))
                st, out, err, _ = launch(np_, ["run.ini"], cwd)
                yield ("case", f"listed {nel} np{np_}", None)
                yield ("count", "listed_counts_tried", 1)
                if (st == 0) != (np_ in allowed):
                    yield ("violation", "allowed counts", f"allowed process counts are given as {allowed}, but on {np_} processes the program ends with {st} for {nel} elements: {err[-500:]}")

        jobs.append(job)

    def options(args):
        def job():
            cwd = folder()
            st, out, err, _ = launch(1 if len(args) == 1 else 6, args, cwd)
            names = list(sims.schema_sections())
            words = set(re.findall(r"[A-Za-z_0-9]+", out))
            yield ("case", f"options {args}", None)
            yield ("count", "listings", 1)
            missing = [n for n in names if n not in words]
            if st != 0 or missing or products(cwd):
                yield ("violation", "options listed", f"{args}: status {st}, options missing {missing[:5]}, files left {products(cwd)[:3]}")

        jobs.append(job)

    flags = [["--profile"], ["--ignore-numpy-warnings"], ["--show-every-crash"], ["--profile", "--ignore-numpy-warnings"]]
    pick = lambda: flags[int(r.integers(len(flags)))]
    rounds = 4 if chk.thorough else 1
    for _ in range(rounds):
        completed("sw", 6, ["--profile"])
        completed("box", 0, [], both=False)
        completed("sw", 6, [], both=False)
        if chk.thorough:
            completed("sw", 24, pick())
            completed("box", 1, pick())
        completed("euler", 6, pick())
    good = lambda **k: sims.config_text(**{**dict(case=6, nel=4, ns=2, dt=50.0, t_end=100.0, output_dir="@/results"), **k})
    refused = [
        lambda: failing("missing file", 6, args=["nothere.ini"]),
        lambda: failing("no file given", 6, args=[]),
        lambda: failing("unknown flag", 6, good(), args=["--no-such-flag", "run.ini"]),
        lambda: failing("empty file", 6, ""),
        lambda: failing("not a configuration", 6, "".join(chr(int(c)) for c in r.integers(33, 120, 400))),
        lambda: failing("folder instead of file", 6, args=["config"]),
        lambda: failing("invalid value", 6, good().replace("num_solpts = 2", "num_solpts = two")),
        lambda: failing("value out of range", 6, good().replace("num_solpts = 2", "num_solpts = -3")),
        lambda: failing("missing option", 6, good().replace("case_number = 6", "")),
    ]
    for i in range(len(refused)) if chk.thorough else sorted(r.permutation(len(refused))[:6]):
        refused[int(i)]()
    for np_ in (1, 5, 7, 12) if chk.thorough else (7, 12):
        failing("unsuitable number of processes", np_, good())
    failing("unknown integrator", 6, good().replace("time_integrator = tvdrk3", "time_integrator = tvdrk33"), nothing=False)

    def block(cwd):
        with open(os.path.join(cwd, "blocked"), "w") as f:
            f.write("x")

    failing("output folder cannot be made", 6, good(output_dir="@/blocked/results"), prepare=block)
    big = dict(dt=float(r.uniform(5000, 9000)), save_state_freq=1, output_freq=1)
    for flag in ([], ["--show-every-crash"], ["--profile"]) if chk.thorough else ([], ["--show-every-crash"]):
        failing("blow-up" + "".join(flag), 6, good(**dict(big, t_end=big["dt"] * 300)), args=flag + ["run.ini"], started=True)
    if chk.thorough:
        failing("blow-up", 24, good(**dict(big, t_end=big["dt"] * 300)), started=True)
    failing("blow-up in the box", 1, sims.config_text(cart=True, case=2, nelx=3, nelz=3, ns=3, dt=20.0, t_end=10000.0, save_state_freq=1, output_dir="@/results"), started=True)
    failing("solver cannot converge", 1, sims.config_text(cart=True, case=2, nelx=2, nelz=2, ns=2, dt=0.5, t_end=5.0, save_state_freq=1, integrator="ros2", tolerance=1e-18, gmres_restart=10, output_dir="@/results"), started="kept")
    if chk.thorough:
        failing("solver cannot converge", 6, good(integrator="ros2", tolerance=1e-18, nel=2, ns=2, gmres_restart=10, save_state_freq=1, t_end=500.0), started="kept")
    listing(6, [6, 24, 54, 12, 30] if chk.thorough else [6, 24])
    listing(4, [6, 24, 54, 96] if chk.thorough else [12])
    listing(5, [6, 24] if chk.thorough else [24])
    if chk.thorough:
        listing(1, [6, 24])
        listing(2, [6, 24])
    options(["--config-options"])
    options(["--config-options", "md"])

    def handle(ev):
        kind, a, b = ev
        if kind == "count":
            chk.count(a, b)
        elif kind == "case":
            chk.case(a)
            chk.sample(a)
        elif kind == "violation":
            chk.violation(a, b)
        elif kind == "library":
            p = subprocess.run((["mpirun", "-n", str(b)] if b else []) + [env.PY, "-c", (
                "import sys,io,contextlib; sys.path[:0]=[%r,%r]\nfrom simulation.simulation import Simulation\n"
                "with contextlib.redirect_stdout(io.StringIO()):\n    Simulation('run.ini').run()\n") % (env.REPO, os.path.join(env.REPO, "wx_factory"))],
                cwd=a, env=env.child_env(), capture_output=True, text=True, timeout=limit, stdin=subprocess.DEVNULL)
            chk.count("library_runs")
            if p.returncode != 0:
                chk.violation("library run", f"the library failed on a run that can be completed ({a}): {p.stderr[-800:]}")

    import threading

    lock = threading.Lock()

    def run(job):
        for ev in job():
            if ev[0] == "library":
                handle(ev)
            else:
                with lock:
                    handle(ev)

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(run, j) for j in jobs]:
            f.result()
    chk.require("completed_runs", 4)
    chk.require("failing_runs", 13)
    chk.require("interrupted_runs", 4)
    chk.require("interrupted_files", 2)
    chk.require("listings", 5)
    chk.require("listed_counts_tried", 3)
    chk.require("profiles", 6)


if __name__ == "__main__":
    driver.main("C25", RULE, drive)
