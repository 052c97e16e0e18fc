"""Worker side: runs inside every (MPI) process next to the code under test and records what the monitors see."""

import collections
import faulthandler
import json
import os
import signal
import sys
import traceback

from . import env as venv


class Rec:
    """Observations of one process. Written out even when the process is about to be aborted."""

    def __init__(self, spec, rank, size):
        self.spec = spec
        self.rank = rank
        self.size = size
        self.counters = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self._keys = set()
        self.errors = []
        self.data = {}
        self.scenario = None
        self.done = False

    def count(self, name, n=1):
        self.counters[name] += n

    def case(self, key, nontrivial=True, n=1):
        self.counters["evaluations"] += n
        if nontrivial:
            self.distinct.add(str(key))

    def sample(self, s):
        if self.rank == 0 and len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, key, msg, data=None):
        if key not in self._keys and len(self.violations) < 40:
            self._keys.add(key)
            self.violations.append([key, msg, data])
            self.flush()

    def error(self, msg):
        self.errors.append(msg)

    def begin(self, scenario):
        """Name the scenario about to run (shown if the processes stop making progress)."""
        self.scenario = str(scenario)

    def flush(self):
        path = os.path.join(self.spec["out"], f"rec.{self.rank}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(
                {
                    "done": self.done,
                    "violations": self.violations,
                    "errors": self.errors,
                    "counters": dict(self.counters),
                    "distinct": sorted(self.distinct),
                    "samples": self.samples,
                    "data": self.data,
                    "scenario": self.scenario,
                },
                f,
                default=_default,
            )
        os.replace(path + ".tmp", path)


def _default(o):
    try:
        import numpy

        if isinstance(o, numpy.ndarray):
            return o.tolist()
        if isinstance(o, numpy.generic):
            return o.item()
    except ImportError:
        pass
    if isinstance(o, complex):
        return [o.real, o.imag]
    return str(o)


def from_repo(exc):
    """Whether an exception was raised by the code under test (rather than by the harness calling it wrongly)."""
    tb = traceback.extract_tb(exc.__traceback__)
    if not tb:
        return False
    frames = [f.filename for f in tb]
    # last frame that belongs either to the repository or to the harness
    for f in reversed(frames):
        if f.startswith(venv.REPO + "/"):
            return True
        if f.startswith(venv.VERIF + "/"):
            return False
    return False


def where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(venv.REPO + "/"):
            return f"{os.path.relpath(f.filename, venv.REPO)}:{f.name}"
    return "?"


def setup_paths():
    os.chdir(venv.REPO)
    for p in (os.path.join(venv.REPO, "wx_factory"), venv.REPO):
        if p not in sys.path:
            sys.path.insert(0, p)


def run(fn, spec_path):
    spec = json.load(open(spec_path))
    setup_paths()
    from mpi4py import MPI

    comm = MPI.COMM_WORLD
    rank = comm.rank
    with open(os.path.join(spec["out"], f"pid.{rank}"), "w") as f:
        f.write(str(os.getpid()))
    stack = open(os.path.join(spec["out"], f"stack.{rank}"), "w")
    faulthandler.enable(file=stack, all_threads=True)
    faulthandler.register(signal.SIGUSR1, file=stack, all_threads=True)
    rec = Rec(spec, rank, comm.size)
    try:
        fn(rec, spec)
        rec.done = True
    except BaseException as e:  # noqa: the processes have to be ended together, whatever happened
        rec.errors = list(rec.errors)
        text = "".join(traceback.format_exception(e))
        if from_repo(e) and not isinstance(e, KeyboardInterrupt):
            rec.violation(
                f"exception:{type(e).__name__}:{where(e)}",
                f"unexpected {type(e).__name__}: {e} (scenario {rec.scenario})",
                {"traceback": text[-4000:]},
            )
        else:
            rec.error(f"harness: scenario {rec.scenario}\n{text[-4000:]}")
        rec.flush()
        sys.stderr.write(text)
        sys.stderr.flush()
        if comm.size > 1:
            import time

            time.sleep(0.5)
            comm.Abort(3)
        return 3
    rec.flush()
    sys.stdout.flush()
    return 0
