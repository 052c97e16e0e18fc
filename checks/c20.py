"""C20: work done by one process on behalf of all happens once, reaches everyone, and its failure stops everyone."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one block of work delegated to a single process of a communicator (the whole set, a part of it or a duplicate; root and "
    "other delegates; values from None to arrays and objects; failures with ordinary errors, exit requests or interruptions; random delays "
    "before and inside), or one simulation start with a missing, invalid or unsuitable configuration. Every process logs what it executed, "
    "received and raised; the gathered logs must show one execution, equal results, and on failure an exception on every process. "
    "Non-trivial: more than one process."
)


def worker(rec, spec):
    import logging
    import tempfile
    import time
    import numpy as np
    from mpi4py import MPI
    from wx_mpi import SingleProcess, Conditional, MultipleProcesses, do_once

    logging.disable(logging.CRITICAL)
    mon = MPI.COMM_WORLD.Dup()
    rank, size = mon.rank, mon.size
    shared = np.random.default_rng([spec["seed"], 20, size])
    own = np.random.default_rng([spec["seed"], 20, size, rank])
    R = lambda *a: int(shared.integers(*a))

    class Mine(Exception):
        pass

    class Thing:
        def __init__(self, n):
            self.n = n

        def __eq__(self, o):
            return type(o).__name__ == "Thing" and self.n == o.n

    def values():
        k = R(0, 9)
        return [None, 0, False, "", [1, {"a": None}], np.arange(R(1, 50000)) * 1.5, "x" * R(1, 100000), ("t", 3.5, b"\0"), Exception("a value")][k]

    def equal(a, b):
        if isinstance(a, np.ndarray):
            return isinstance(b, np.ndarray) and np.array_equal(a, b)
        if isinstance(a, BaseException):
            return type(a) is type(b) and a.args == b.args
        return type(a) is type(b) and a == b

    def jitter():
        if own.integers(3) == 0:
            time.sleep(float(own.uniform(0, 0.01)))

    comms = {"world": MPI.COMM_WORLD, "duplicate": MPI.COMM_WORLD.Dup()}
    comms["half"] = MPI.COMM_WORLD.Split(rank % 2, rank)
    comms["reversed"] = MPI.COMM_WORLD.Split(0, -rank)
    comms["alone"] = MPI.COMM_SELF
    failures = [None, None, None, ValueError("no"), Mine("custom"), SystemExit(3), KeyboardInterrupt(), KeyError("k"), MemoryError()]
    for k in range(spec["n"]):
        cname = list(comms)[R(len(comms))]
        comm = comms[cname]
        how = ["once", "block", "block-delegate", "nested", "first-of-many"][R(5)]
        fail = failures[R(len(failures))]
        val = values()
        delegate = R(0, 10**6) % comm.size if how == "block-delegate" else 0
        ran, received, raised, after = 0, None, None, False
        rec.begin(f"{how} {cname} {fail!r}")
        jitter()

        def action(a, b):
            nonlocal ran
            ran += 1
            if (a, b) != (7, "z"):
                raise AssertionError("arguments")
            jitter()
            if fail is not None:
                raise fail
            return val

        try:
            if how == "once":
                received = do_once(action, 7, "z", comm=comm)
            elif how == "first-of-many":  # the group of one process
                with MultipleProcesses(comm, 1) as m, Conditional(m):
                    action(7, "z")
                received = val
            elif how == "nested":
                def outer(a, b):
                    inner = do_once(action, a, b, comm=MPI.COMM_SELF)
                    return inner
                received = do_once(outer, 7, "z", comm=comm)
            else:
                with SingleProcess(comm, delegate) as s, Conditional(s):
                    s.return_value = action(7, "z")
                received = s.return_value
            after = True
        except BaseException as e:
            raised = e
        jitter()
        # the communicator must still be usable and in step
        token = comm.allgather((k, rank))
        if [t[0] for t in token] != [k] * comm.size:
            rec.violation(f"{how}:out-of-step", f"processes are no longer in step after {how} on {cname}")
        log = comm.allgather((ran, comm.rank))
        who = [r for n, r in log if n]
        rec.count("delegations")
        rec.count("executions", ran)
        if sum(n for n, _ in log) != 1 or who != [delegate]:
            rec.violation(f"{how}:executions", f"work delegated to process {delegate} of {comm.size} ran {[n for n, _ in log]} times ({cname})")
        if fail is None:
            if raised is not None or not after:
                rec.violation(f"{how}:raised", f"a successful delegation raised {raised!r} ({cname}, {comm.size} processes)")
            elif not equal(val, received):
                rec.violation(f"{how}:value", f"a process received {str(received)[:80]!r} instead of {str(val)[:80]!r} ({cname})")
        else:
            rec.count("failures")
            if raised is None or after:
                rec.violation(f"{how}:continued", f"a process continued although the delegated work failed with {fail!r} ({cname}, rank {comm.rank} of {comm.size})")
            elif comm.rank == delegate and raised is not fail:
                rec.violation(f"{how}:hidden", f"the failure {fail!r} was reported as {raised!r}")
        rec.case(f"{size}:{how}:{cname}:{type(fail).__name__}:{type(val).__name__}", comm.size > 1)
    rec.sample(f"{size} processes: {how} on {cname}, failure {fail!r}")

    # ---- starting a simulation -------------------------------------------------------------------------------
    from simulation import Simulation
    from common import Configuration
    from vf import sims

    tmp = mon.bcast(tempfile.mkdtemp(dir=spec["out"]) if rank == 0 else None)

    def start(label, content, must_work, nel=None):
        path = os.path.join(tmp, label + ".ini")
        if rank == 0 and content is not None:
            open(path, "w").write(content)
        mon.barrier()
        rec.begin("start " + label)
        ok, err = True, None
        try:
            sims.quiet(Simulation, path)
        except BaseException as e:
            ok, err = False, e
        res = mon.allgather((ok, type(err).__name__, str(err)[:150]))
        if len({r[0] for r in res}) > 1:
            rec.violation(f"start:{label}:split", f"starting with {label}: some processes went on, some did not: {sorted(set(res))[:4]}")
        elif ok != must_work:
            rec.violation(f"start:{label}", f"starting with {label} on {size} processes: {'accepted' if ok else res[0]}")
        rec.count("starts")
        rec.case(f"{size}:start:{label}", size > 1)

    out = os.path.join(tmp, "results")
    good = dict(case=2, ns=2, output_dir=out, dt=10.0, t_end=20.0)
    if size == 1:
        cart = sims.config_text(cart=True, case=2, ns=2, nelx=2, nelz=2, output_dir=out, dt=0.1, t_end=0.2)
        start("box", cart, True)
        start("sphere-on-one-process", sims.config_text(**dict(good, nel=4)), False)
        start("missing-file", None, False)
        start("invalid", cart.replace("num_solpts = 2", "num_solpts = zero"), False)
        return
    per_side = int(round((size / 6) ** 0.5))
    square = 6 * per_side**2 == size
    for nel in spec["nels"]:
        # a tile needs the same whole number of elements in each direction, at least two unless there is one tile per panel
        fine = square and nel % per_side == 0 and (per_side == 1 or nel // per_side >= 2)
        start(f"{nel}-elements", sims.config_text(**dict(good, nel=nel)), fine)
    start("missing-file", None, False)
    start("invalid", sims.config_text(**dict(good, nel=4)).replace("num_solpts = 2", "num_solpts = -1"), False)
    start("garbage", "this is not a configuration", False)
    start("unknown-integrator", sims.config_text(**dict(good, nel=2 * max(per_side, 1), integrator="no_such_method")), False)


def drive(chk):
    q = chk.tier == "quick"
    n = 150 if q else 2000
    for np_, nels in [(1, []), (2, [4]), (3, [3]), (6, [1, 2, 3, 5]), (7, [4])] + ([] if q else [(12, [2, 4]), (24, [2, 3, 4, 5, 6]), (54, [3, 6, 9]), (8, [8])]):
        chk.run_worker("checks/c20.py", {"n": n, "nels": nels}, np=np_, timeout=120 if q else 400, label=f"np{np_}", hang_is_violation=True,
                       retries=1)
    if q:
        chk.run_worker("checks/c20.py", {"n": 20, "nels": [2, 4, 6, 7]}, np=24, timeout=150, label="np24", hang_is_violation=True, retries=1)
    chk.require("delegations", 2000)
    chk.require("failures", 500)
    chk.require("starts", 60)


if __name__ == "__main__":
    driver.main("C20", RULE, drive, worker)
