"""C24: the solver statistics database is a complete and truthful record of every run that used it."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one completed step of a real simulation with solver statistics on: the harness records, independently of the output layer, "
    "the step's start, its length, the number of tendency evaluations and what the solver called in it returned, then opens the database and "
    "compares the rows of that step; runs of different configurations, integrators and process counts share one file, one after another and "
    "interleaved, also a file written by an older version; files that cannot be used must stop all processes. Non-trivial: the step ran."
)

SOLVERS = ("kiops", "pmex", "pmex_1s", "pmex_ne1s", "icwy_ne1s", "icwy_ne", "icwy_1s", "icwy_neiop", "cwy_ne1s", "cwy_ne", "cwy_1s", "dcgs2", "kiops_nest",
           "exode", "fgmres", "newton_krylov", "gcrot")


def worker(rec, spec):
    import contextlib, io, sqlite3, time
    import numpy as np
    from mpi4py import MPI
    import solvers, integrators, integrators.integrator
    from rhs.rhs import RHS
    from vf import sims

    np.seterr(all="ignore")
    mon = MPI.COMM_WORLD.Dup()
    root = mon.rank == 0
    calls, depth = [], [0]

    # --- monitors: what each solver returned, how often the tendency was evaluated
    def hook(name, f):
        def g(*a, **k):
            depth[0] += 1
            try:
                r = f(*a, **k)
            finally:
                depth[0] -= 1
            if depth[0] == 0:
                calls.append((name, r))
            return r

        return g

    orig = {n: getattr(solvers, n) for n in SOLVERS if callable(getattr(solvers, n, None))}
    hooked = {id(f): hook(n, f) for n, f in orig.items()}
    for m in list(sys.modules.values()):
        for k, v in list(getattr(m, "__dict__", {}).items()):
            if id(v) in hooked and any(v is f for f in orig.values()):
                setattr(m, k, hooked[id(v)])
    evals = [0]
    inner_call = RHS.__call__

    def call(self, q):
        evals[0] += 1
        return inner_call(self, q)

    RHS.__call__ = call
    quiet = lambda: contextlib.redirect_stdout(io.StringIO())

    def outcome(name, r):
        """(iterations, flag, residual history) reported by a solver"""
        if name == "fgmres":
            return int(r[3]), int(r[4]), [tuple(float(v) for v in x) for x in r[5]]
        if name == "newton_krylov":
            return int(r[1]), 0, [tuple(float(v) for v in x) for x in r[2]]
        if name == "gcrot":
            return int(r[2]), None, None
        return int(r[1][2]), 0, []

    def one_step(sim, steps):
        del calls[:]
        evals[0] = 0
        t, sid, start = float(sim.t), sim.step_id, time.time()
        with quiet():
            sim.step()
        if sim.step_id > sid:
            rec.count("steps_run")
            steps.append(dict(t=t, dt=float(sim.t) - t, calls=[(n, outcome(n, r)) for n, r in calls], evals=evals[0], wall=time.time() - start))
            return True
        return False

    def make(kw, out, **more):
        return sims.make(output_dir=out, store_solver_stats=1, **{**kw, **more})

    def table(con, sql, *args):
        cur = con.execute(sql, args)
        names = [d[0] for d in cur.description]
        return [dict(zip(names, r)) for r in cur.fetchall()]

    def settings(c):
        s = dict(dg_order=c.num_solpts, num_elem_h=c.num_elements_horizontal_total, num_elem_v=c.num_elements_vertical, initial_dt=c.dt, equations=c.equations,
                 case_number=c.case_number, grid_type=c.grid_type, time_integrator=c.time_integrator, solver_tol=c.tolerance, gmres_restart=c.gmres_restart,
                 precond="none", num_procs=mon.size, backend="cpu")
        s.update(dict(x0=c.x0, x1=c.x1, z0=c.z0, z1=c.z1) if c.grid_type == "cartesian2d" else dict(ztop=c.ztop))
        return s

    def verify(path, name, runs, ids):
        """Compare the rows of the runs (dicts with config settings and steps) with ids (run_id per run)."""
        con = sqlite3.connect(path)
        for run, rid in zip(runs, ids):
            nm = f"{name}: {run['name']}"
            rows = table(con, "select * from results_param where run_id = ? order by entry_id", rid)
            if [r["step_id"] for r in rows] != list(range(len(run["steps"]))):
                rec.violation("steps recorded", f"steps recorded for run {rid} are {[r['step_id'] for r in rows]} instead of 0..{len(run['steps']) - 1} for {nm}")
                continue
            for k, (r, st) in enumerate(zip(rows, run["steps"])):
                rec.case(f"{nm} step {k}")
                rec.count("rows_checked")
                if k == 1:
                    rec.sample(f"{nm}: step {k} starts at {r['simulation_time']}, {r['num_solver_it']} iterations, {st['evals']} evaluations, solvers {[(n, o[0]) for n, o in st['calls']][:3]}")
                w = f"step {k} of {nm}"
                for c, v in run["settings"].items():
                    if r.get(c) != v:
                        rec.violation(f"setting {c}", f"{c} is recorded as {r.get(c)!r} instead of {v!r} for {w}")
                if not isinstance(r["simulation_time"], float) or abs(r["simulation_time"] - st["t"]) > 1e-9 * max(abs(st["t"]), st["dt"]):
                    rec.violation("start of step", f"simulation time recorded as {r['simulation_time']!r} instead of {st['t']} for {w}")
                if not isinstance(r["dt"], (int, float)) or abs(r["dt"] - st["dt"]) > 1e-9 * max(abs(st["t"]), st["dt"]):
                    rec.violation("length of step", f"dt recorded as {r['dt']!r} instead of {st['dt']} for {w}")
                for c in ("total_solve_time", "solver_time"):
                    if not isinstance(r[c], (int, float)) or not 0 <= r[c] <= st["wall"] + 0.05:
                        rec.violation(c, f"{c} recorded as {r[c]!r} s in a step that took {st['wall']} s for {w}")
                if not isinstance(r["num_solver_it"], int) or not isinstance(r["solver_flag"], int):
                    rec.violation("number type", f"iterations and flag are recorded as {r['num_solver_it']!r} and {r['solver_flag']!r} for {w}")
                    continue
                res = table(con, "select iteration, residual, time, work from results_data where run_id = ? and step_id = ? order by rowid", rid, k)
                got = [(x["residual"], x["time"], x["work"]) for x in res]
                if [x["iteration"] for x in res] != list(range(len(res))):
                    rec.violation("iterations numbered", f"residual history of {w} is numbered {[x['iteration'] for x in res][:9]}..")
                outs = [o for n, o in st["calls"] if n not in ("gcrot",)]
                starting = run["settings"]["time_integrator"] in ("epi3", "epi4", "epi5", "epi6") and r["num_solver_it"] == 0 and not got  # by another method
                if run["reports"] and outs and not starting:
                    rec.count("solver_reports_checked")
                    main = outs[-1]
                    if r["num_solver_it"] not in (main[0], sum(o[0] for o in outs)):
                        rec.violation("iterations", f"{r['num_solver_it']} iterations recorded, the solver reported {[o[0] for o in outs]} for {w}")
                    if r["solver_flag"] != main[1]:
                        rec.violation("flag", f"solver flag recorded as {r['solver_flag']}, the solver reported {main[1]} for {w}")
                    if got not in (main[2], sum((o[2] for o in outs), [])):
                        rec.violation("residual history", f"residual history has {len(got)} entries ({got[:2]}..), the solver reported {len(main[2])} ({main[2][:2]}..) for {w}")
                    rec.count("residuals_checked", len(main[2]))
                elif run["reports"] and not outs and (r["num_solver_it"] != 0 or got):
                    rec.violation("iterations", f"{r['num_solver_it']} iterations and {len(got)} residuals recorded although no solver ran in {w}")
                tim = table(con, "select * from rhs_timing where run_id = ? and step_id = ? order by rowid", rid, k)
                if tim or run["timed"]:
                    rec.count("timed_steps")
                    if len(tim) != st["evals"] or [x["iteration"] for x in tim] != list(range(len(tim))):
                        rec.violation("evaluations timed", f"{len(tim)} tendency timings recorded for {st['evals']} evaluations in {w}")
                    for x in tim:
                        v = [x[c] for c in list(x)[3:]]
                        if any(not isinstance(y, (int, float)) or not -1e-6 <= y <= st["wall"] + 0.05 for y in v) or abs(sum(v[:-1]) - v[-1]) > 1e-3 * v[-1] + 1e-6:
                            rec.violation("timing", f"tendency timing {v} is not a division of its total for {w}")
                            break
        con.close()

    def new_ids(path, before):
        con = sqlite3.connect(path)
        rows = table(con, "select * from results_param order by entry_id")
        con.close()
        known = [r["entry_id"] for r in before]
        out = []
        for r in rows:
            if r["entry_id"] not in known and r["run_id"] not in out:
                out.append(r["run_id"])
        return rows, out

    def everything(path):
        if not os.path.exists(path):
            return {}
        con = sqlite3.connect(path)
        d = {t: con.execute(f"select * from {t} order by rowid").fetchall() for t in ("results_param", "results_data", "rhs_timing")}
        con.close()
        return d

    def undisturbed(path, old, name):
        now = everything(path)
        for t, rows in old.items():
            rec.count("old_rows_checked", len(rows))
            if now[t][: len(rows)] != rows:
                rec.violation("earlier rows", f"rows of earlier runs in {t} changed ({name})")

    def go(sim, nm):
        run = dict(name=nm, settings=settings(sim.config), steps=[], reports=sim.config.linear_solver != "gcrot" and sim.config.time_integrator in spec["reporting"],
                   timed=sim.config.time_integrator in spec["timed"])
        return run

    label = lambda kw: " ".join(f"{k}={kw[k]}" for k in kw if k not in ("cart", "domain"))
    for g, group in enumerate(spec["groups"]):
        out = os.path.join(spec["out"], f"g{g}")
        path = os.path.join(out, "solver_stats.db" if not group.get("file") else group["file"])
        more = {"solver_stats_file": os.path.basename(path)}
        for kw in group["runs"]:
            nm = label(kw) + f" np{mon.size}"
            rec.begin(f"run {nm}")
            if root and group.get("older") and os.path.exists(path):
                con = sqlite3.connect(path)
                for col in group["older"]:
                    con.execute(f"alter table results_param drop column {col}")
                con.commit()
                con.close()
            before = everything(path) if root else {}
            sim = make(kw, out, **more)
            run = go(sim, nm)
            while one_step(sim, run["steps"]):
                pass
            mon.Barrier()
            if not root:
                continue
            if not os.path.exists(path):
                rec.violation("file", f"no statistics file for {nm}")
                continue
            if group.get("older"):
                con = sqlite3.connect(path)
                rows = table(con, "select * from results_param order by entry_id")
                con.close()
                n_old = len(before.get("results_param", []))
                for r in rows[:n_old]:
                    for c in group["older"]:
                        if r.get(c) not in (-1, "none"):
                            rec.violation("older file", f"column {c} missing from an older file is filled with {r.get(c)!r} in rows of earlier runs ({nm})")
                old_rows = rows[:n_old]
            else:
                undisturbed(path, before, nm)
                old_rows = [dict(entry_id=r[0]) for r in before.get("results_param", [])]
            rows, ids = new_ids(path, old_rows)
            if len(ids) != 1 or len(rows) - len(old_rows) != len(run["steps"]):
                rec.violation("one run", f"{len(rows) - len(old_rows)} rows with run ids {ids} added by one run of {len(run['steps'])} steps ({nm})")
                continue
            if sum(r["run_id"] == ids[0] for r in rows) != len(run["steps"]):
                rec.violation("run id", f"run id {ids[0]} is shared with another run ({nm})")
                continue
            verify(path, f"group {g}", [run], ids)
    for g, pair in enumerate(spec["together"]):
        out = os.path.join(spec["out"], f"t{g}")
        path = os.path.join(out, "solver_stats.db")
        names = [label(kw) + f" np{mon.size} (with others)" for kw in pair]
        rec.begin(f"together {names}")
        ss = [make(kw, out, solver_stats_file="solver_stats.db") for kw in pair]
        runs = [go(s, n) for s, n in zip(ss, names)]
        order = np.random.default_rng([spec["seed"], g, 5])
        todo = list(range(len(ss)))
        firsts = []
        while todo:
            i = int(order.choice(todo))
            if not one_step(ss[i], runs[i]["steps"]):
                todo.remove(i)
            elif i not in firsts:
                firsts.append(i)
        mon.Barrier()
        if root:
            rows, ids = new_ids(path, [])
            if len(ids) != len(ss) or len(rows) != sum(len(r["steps"]) for r in runs):
                rec.violation("runs together", f"{len(rows)} rows with run ids {ids} for {len(ss)} runs with {[len(r['steps']) for r in runs]} steps ({names})")
            else:
                verify(path, f"together {g}", [runs[i] for i in firsts], ids)
    for g, kw in enumerate(spec.get("restart", [])):
        out = os.path.join(spec["out"], f"r{g}")
        rec.begin(f"restart {kw}")
        sim = sims.make(output_dir=out, save_state_freq=2, **kw)
        with quiet():
            while sim.step():
                pass
        mon.Barrier()
        sim = make(kw, out, solver_stats_file="s.db", starting_step=2)
        run = go(sim, label(kw) + " restarted")
        while one_step(sim, run["steps"]):
            pass
        mon.Barrier()
        if root:
            rows, ids = new_ids(os.path.join(out, "s.db"), [])
            verify(os.path.join(out, "s.db"), f"restart {g}", [run], ids)
            rec.count("restarts")
    for g, kw in enumerate(spec.get("total", [])):
        out = os.path.join(spec["out"], f"y{g}")
        lines = []
        for k in range(2):
            sim = sims.make(output_dir=out, store_total_time=1, **kw)
            t0 = time.time()
            with quiet():
                sim.run()
            lines.append(time.time() - t0)
            mon.Barrier()
            files = [f for f in os.listdir(out) if f.startswith("runtime")]
            got = [ln for f in files for ln in open(os.path.join(out, f)).read().splitlines()]
            try:
                ok = len(files) == 1 and len(got) == k + 1 and all(0 < float(v) <= w + 0.2 for v, w in zip(got, lines))
            except ValueError:
                ok = False
            mon.Barrier()
            rec.case(f"total {g} {k}")
            rec.count("totals_checked")
            if root and not ok:
                rec.violation("total time", f"total times recorded in {files} are {got} after {k + 1} runs that took {lines} s ({kw})")
    # files that cannot be used
    for how, kw in spec.get("bad", []):
        out = os.path.join(spec["out"], f"bad_{how}")
        path = os.path.join(out, "s.db")
        rec.begin(f"unusable file: {how}")
        hold = None
        if root:
            os.makedirs(out)
            if how == "directory":
                os.makedirs(path)
            elif how == "garbage":
                with open(path, "wb") as f:
                    f.write(np.random.default_rng(3).bytes(5000))
            elif how == "missing folder":
                path = os.path.join(out, "no", "s.db")
        mon.Barrier()
        failed, steps = None, 0
        try:
            sim = make(kw, out, solver_stats_file="no/s.db" if how == "missing folder" else "s.db")
            steps = []
            if how == "locked":
                one_step(sim, steps)
                mon.Barrier()
                if root:
                    hold = sqlite3.connect(path)
                    hold.execute("begin exclusive")
                mon.Barrier()
            one_step(sim, steps)
        except (Exception, SystemExit) as e:
            failed = type(e).__name__
        alls = mon.allgather(failed)
        rec.case(f"unusable {how}")
        rec.count("unusable_files")
        if hold is not None:
            hold.rollback()
            hold.close()
        if any(f is None for f in alls):
            rec.violation(f"unusable file: {how}", f"with a statistics file that cannot be used ({how}) the processes ended with {alls}")


def drive(chk):
    me = "checks/c24.py"
    import numpy as np

    r = np.random.default_rng([chk.seed, 24])
    reporting = ["ros2", "epi2", "epi3", "epi4", "epi5", "epi6", "backward_euler", "crank_nicolson", "bdf2"]
    timed = ["tvdrk3", "epi2", "epi3", "epi4", "epi5", "epi6", "euler1", "backward_euler", "bdf2", "crank_nicolson"]
    base = dict(reporting=reporting, timed=timed)

    def box(integ, dt=0.4, n=None, **k):
        n = n or int(r.integers(2, 5))
        return dict(cart=True, case=2, nelx=int(r.integers(2, 5)), nelz=int(r.integers(2, 5)), ns=int(r.integers(2, 4)), dt=dt, t_end=dt * (n - float(r.choice([0.0, 0.3, 0.6]))),
                    integrator=integ, tolerance=float(r.choice([1e-6, 1e-7])), **k)

    def ball(integ, case=6, n=None, dt=None, **k):
        n = n or int(r.integers(2, 4))
        dt = dt or (200.0 if case < 11 else 0.5)
        return dict(case=case, nel=int(r.choice([2, 4])), ns=int(r.integers(2, 4)), nev=2, dt=dt, t_end=dt * (n - float(r.choice([0.0, 0.4]))), integrator=integ, tolerance=1e-7, **k)

    boxes = ["ros2", "epi2", "tvdrk3", "epi3", "crank_nicolson", "backward_euler", "bdf2", "euler1", "srerk3", "epi_stiff3"]
    few = lambda names: [str(x) for x in r.permutation(names)]
    dts = {"euler1": 0.01, "tvdrk3": 0.05, "srerk3": 0.05, "imex2": 0.01}
    mk = lambda i: box(i, dt=dts.get(i, 0.2))
    solvers = ["kiops", "pmex", "exode", "pmex_ne"]
    short = lambda i, n: dict(mk(i), t_end=0.2 * (n - 0.5))  # a multistep method that starts again in the last, shorter step
    groups = [dict(runs=[mk(i) for i in boxes] + [short("epi3", 4), short("bdf2", 4)]), dict(runs=[box("epi2", dt=0.1, n=2, exponential_solver=s) for s in solvers], file="other name.sqlite"),
              dict(runs=[mk("ros2"), mk("epi2"), mk("tvdrk3")], older=["num_procs", "backend", "exp_radius_4"]),
              dict(runs=[dict(box("ros2", dt=4.0, n=2), nelx=4, nelz=5, ns=3, tolerance=1e-10),  # hundreds of iterations and evaluations
                         dict(box("epi3", dt=2.0, n=4), nelx=4, nelz=4, ns=3, t_end=2.0 * 3.2, tolerance=1e-7)])]  # and a much shorter last step
    if chk.thorough:
        groups += [dict(runs=[mk(i) for i in few(boxes)]) for _ in range(40)]
    together = [[mk("ros2"), mk("epi2"), mk("tvdrk3")], [mk("ros2"), mk("ros2")]]
    chk.run_worker(me, dict(base, groups=groups, together=together, restart=[box("ros2", n=5), box("epi3", dt=0.2, n=5)], total=[box("tvdrk3", dt=0.05)],
                            bad=[[h, mk("tvdrk3")] for h in ("directory", "garbage", "missing folder")], label="box"), np=1, timeout=300 if not chk.thorough else 1800)
    balls = lambda: [ball("ros2"), ball("epi2"), ball("tvdrk3", dt=50.0), ball("epi3"), ball("ros2", case=31), ball("tvdrk3", case=31, dt=0.2)]
    for np_, extra in ((6, [["garbage", ball("tvdrk3", dt=50.0)], ["directory", ball("tvdrk3", dt=50.0)], ["locked", ball("tvdrk3", dt=50.0, n=4)]]), (24, [])):
        gs = [dict(runs=balls() if np_ == 6 or chk.thorough else [dict(b, nel=4) for b in balls()[:3]])]
        if np_ == 24:
            gs = [dict(runs=[dict(b, nel=4) for b in g["runs"]]) for g in gs]
        chk.run_worker(me, dict(base, groups=gs, together=[[dict(ball("ros2"), nel=4), dict(ball("tvdrk3", dt=50.0), nel=4)]] if np_ == 6 else [], bad=extra, label=f"np{np_}",
                                restart=[ball("ros2", n=4)] if np_ == 6 else [], total=[dict(ball("tvdrk3", dt=50.0), nel=4)]), np=np_, timeout=300 if not chk.thorough else 1200)
    chk.require("rows_checked", 60)
    chk.require("solver_reports_checked", 20)
    chk.require("timed_steps", 10)
    chk.require("unusable_files", 5)
    chk.require("old_rows_checked", 50)
    chk.require("totals_checked", 4)

if __name__ == "__main__":
    driver.main("C24", RULE, drive, worker)
