"""Driver side of a check: launches workers (the real code, in its own processes), merges what their monitors
observed, writes the evidence file and gives the verdict.

Exit status: 0 held on everything observed, 1 with VIOLATION lines, 2 inconclusive / harness error."""

import collections
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import env as venv

KNOWN = os.path.join(venv.VERIF, "known-findings.jsonl")


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line and not line.startswith("#"):
                rec = json.loads(line)
                if rec.get("property") == pid and rec.get("status") == "known":
                    out.append(rec)
    return out


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=()):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.t0 = time.time()
        self.counters = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = collections.OrderedDict()  # key -> (msg, data)
        self.errors = []
        self.required = {}
        self.scratch = tempfile.mkdtemp(prefix=f"vf_{pid}_")
        self.thorough = self.tier == "thorough"

    # ---- recording -------------------------------------------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def case(self, key, nontrivial=True, n=1):
        self.counters["evaluations"] += n
        if nontrivial:
            self.distinct.add(str(key))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, key, msg, data=None):
        if key not in self.violations:
            self.violations[key] = (msg, data)

    def error(self, msg):
        self.errors.append(msg)

    def require(self, counter, minimum=1):
        """The verdict `held` needs at least this many observations of that kind."""
        self.required[counter] = max(minimum, self.required.get(counter, 0))

    # ---- running ---------------------------------------------------------------------------------------------
    def build(self):
        venv.ensure_kernels()

    def run_worker(self, script, spec, np=1, timeout=300, extra_env=None, hang_is_violation=True, retries=1,
                   label=None, mpirun=True, python=None):
        """Run one worker program over `np` processes and merge its records. Returns the list of per-rank records."""
        label = label or spec.get("label", "worker")
        for attempt in range(retries + 1):
            if not self.thorough:  # stay inside the time a check is given, whatever the processes do
                timeout = max(30, min(timeout, 800 - (time.time() - self.t0)))
                if time.time() - self.t0 + 2 * timeout > 800:
                    retries = attempt
            out = tempfile.mkdtemp(prefix="w_", dir=self.scratch)
            spec_path = os.path.join(out, "spec.json")
            with open(spec_path, "w") as f:
                json.dump(dict(spec, seed=self.seed, tier=self.tier, out=out, pid=self.pid), f)
            py = python or [venv.PY]
            cmd = py + [os.path.join(venv.VERIF, script), "--worker", spec_path]
            if mpirun:
                cmd = ["mpirun", "-n", str(np)] + cmd
            log = open(os.path.join(out, "log"), "wb")
            p = subprocess.Popen(
                cmd, cwd=venv.REPO, env=venv.child_env(extra_env), stdout=log, stderr=subprocess.STDOUT,
                start_new_session=True,
            )
            hung = False
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                hung = True
                self._dump_and_kill(p, out)
            log.close()
            recs = self._collect(out, np)
            if hung and not any(r["violations"] for r in recs) and attempt < retries:
                self.count("hang_retries")
                shutil.rmtree(out, ignore_errors=True)
                continue
            self._merge(recs, label, spec)
            text = open(os.path.join(out, "log"), errors="replace").read()
            if hung:
                stacks = self._stacks(out, np)
                where = sorted({s for s in stacks.values() if s})
                scen = next((r.get("scenario") for r in recs if r.get("scenario")), None)
                msg = (f"no progress for {timeout} s ({label}, {np} processes, scenario {scen}); "
                       f"processes blocked at: {where[:6]}")
                if hang_is_violation and any("repo:" in s for s in where):
                    self.violation(f"no-progress:{label}", msg, {"spec": spec, "stacks": stacks, "log": text[-3000:]})
                elif not any(r["violations"] for r in recs):
                    self.error("watchdog: " + msg + "\n" + text[-2000:])
            elif len([r for r in recs if r["done"]]) != np and not any(r["violations"] for r in recs) and self._crashed(out, np):
                scen = next((r.get("scenario") for r in recs if r.get("scenario")), None)
                where = sorted({s for s in self._stacks(out, np).values() if s})
                self.violation(f"crash:{label}", f"a process crashed in native code ({label}, scenario {scen}); at {where[:6]}",
                               {"spec": spec, "log": text[-3000:]})
            elif len([r for r in recs if r["done"]]) != np and not any(r["violations"] for r in recs):
                self.error(f"{label}: worker ended with status {p.returncode} before finishing\n" + text[-3000:])
            if os.environ.get("VF_DEBUG"):
                print(text)
            self.last_log = text
            self.last_status = p.returncode
            shutil.rmtree(out, ignore_errors=True)
            return recs

    def _dump_and_kill(self, p, out):
        for f in os.listdir(out):
            if f.startswith("pid."):
                try:
                    os.kill(int(open(os.path.join(out, f)).read()), signal.SIGUSR1)
                except (OSError, ValueError):
                    pass
        time.sleep(1.5)
        for f in os.listdir(out):
            if f.startswith("pid."):
                try:
                    os.kill(int(open(os.path.join(out, f)).read()), signal.SIGKILL)
                except (OSError, ValueError):
                    pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            pass

    def _crashed(self, out, np):
        """Whether a process died of a memory or arithmetic fault below code of the repository."""
        stacks = self._stacks(out, np)
        for r in range(np):
            path = os.path.join(out, f"stack.{r}")
            if os.path.exists(path) and "Fatal Python error" in open(path, errors="replace").read():
                if stacks.get(r, "").startswith("repo:"):
                    return True
        return False

    def _stacks(self, out, np):
        res = {}
        for r in range(np):
            path = os.path.join(out, f"stack.{r}")
            if not os.path.exists(path):
                continue
            frames = re.findall(r'File "([^"]+)", line (\d+) in (\S+)', open(path, errors="replace").read())
            repo = [(f, l, fn) for f, l, fn in frames if f.startswith(venv.REPO + "/")]
            if repo:
                f, l, fn = repo[0]
                res[r] = f"repo:{os.path.relpath(f, venv.REPO)}:{fn}"
            elif frames:
                res[r] = f"{os.path.basename(frames[0][0])}:{frames[0][2]}"
        return res

    def _collect(self, out, np):
        recs = []
        for r in range(np):
            path = os.path.join(out, f"rec.{r}.json")
            rec = None
            if os.path.exists(path):
                try:
                    rec = json.load(open(path))
                except ValueError:
                    rec = None
            if rec is None:
                rec = {"done": False, "violations": [], "errors": [], "counters": {}, "distinct": [], "samples": [],
                       "data": {}}
            recs.append(rec)
        return recs

    def _merge(self, recs, label, spec):
        for rank, rec in enumerate(recs):
            for k, v in rec["counters"].items():
                self.counters[k] += v
            self.distinct.update(rec["distinct"])
            for s in rec["samples"]:
                self.sample(s)
            for key, msg, data in rec["violations"]:
                self.violation(key, f"[{label} rank {rank}] {msg}", {"spec": spec, "rank": rank, "data": data})
            for e in rec["errors"]:
                self.error(f"[{label} rank {rank}] {e}")

    # ---- verdict ---------------------------------------------------------------------------------------------
    def finish(self):
        known = known_findings(self.pid)
        printed = set()
        remaining = collections.OrderedDict()
        for key, val in self.violations.items():
            hit = next((k for k in known if re.fullmatch(k["match"], key)), None)
            if hit is not None:
                if hit["match"] not in printed:
                    printed.add(hit["match"])
                    print(f"KNOWN-FINDING: property={self.pid} {hit['what']}")
            else:
                remaining[key] = val
        for name, minimum in self.required.items():
            if self.counters[name] < minimum and not remaining:
                self.error(f"monitor not reached: {name} observed {self.counters[name]} times, need {minimum}")

        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": int(self.counters["evaluations"]),
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples,
                "observed": {k: (int(v) if float(v).is_integer() else float(v)) for k, v in sorted(self.counters.items())
                             if k != "evaluations"},
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(remaining),
        }
        os.makedirs(os.path.join(venv.VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(venv.VERIF, "evidence", f".{self.pid}.json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(venv.VERIF, "evidence", f"{self.pid}.json"))
        shutil.rmtree(self.scratch, ignore_errors=True)

        print(f"{self.pid} tier={self.tier} seed={self.seed} evaluations={self.counters['evaluations']} "
              f"distinct={len(self.distinct)} violations={len(remaining)} errors={len(self.errors)} "
              f"wall={time.time() - self.t0:.1f}s")
        if remaining:
            rdir = os.path.join(venv.VERIF, "replays", self.pid)
            os.makedirs(rdir, exist_ok=True)
            for key, (msg, data) in list(remaining.items())[:20]:
                name = re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80] + ".json"
                path = os.path.join(rdir, name)
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "message": msg, "seed": self.seed, "tier": self.tier,
                               "data": data}, f, indent=1, default=str)
                print(f"  {key}: {msg}"[:600])
                print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print("INCONCLUSIVE:", e[:3000])
            return 2
        return 0


def main(pid, rule, drive, worker=None, **kw):
    """Entry point of a check script."""
    if len(sys.argv) > 2 and sys.argv[1] == "--worker":
        from . import worker as w

        sys.exit(w.run(worker, sys.argv[2]))
    chk = Check(pid, rule, **kw)
    try:
        chk.build()
        drive(chk)
    except Exception:
        chk.error(traceback.format_exc())
    sys.exit(chk.finish())
