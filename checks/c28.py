"""C28: every process of a run uses compiled kernels built from the current sources, built once, or the run does not start."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one start of the device layer (as every simulation does it) on 1 to 6 processes in a scratch copy of the project, after one step of a history: fresh copy, nothing changed, "
    "one kernel source or header edited, sources that do not compile, their repair, a library replaced by something else, forced rebuilds. Marks planted in the sources tell which version "
    "of each file every process really runs; a stand-in for the compiler records each call, writes an unfinished library first and takes its time. Non-trivial: a decision to build or not was taken."
)

PROBE = r"""
import json, os, sys, time
out, copy, force = sys.argv[1], sys.argv[2], sys.argv[3]
sys.path[:0] = [copy, os.path.join(copy, "wx_factory")]
from mpi4py import MPI
rank = MPI.COMM_WORLD.rank
res = {"rank": rank, "marks": None, "error": None}
try:
    if force == "force":
        import compiler.compile_kernels as k
        k.compile("pde", "cpp", force=True)
    from device import CpuDevice
    m = CpuDevice().pde
    res["marks"] = {n[7:]: int(getattr(m, n)) for n in dir(m) if n.startswith("vfmark_")}
    res["file"] = m.__file__
except BaseException as e:
    res["error"] = f"{type(e).__name__}: {e}"[:300]
with open(os.path.join(out, f"probe.{rank}.tmp"), "w") as f:
    json.dump(res, f)
os.replace(os.path.join(out, f"probe.{rank}.tmp"), os.path.join(out, f"probe.{rank}.json"))
if res["error"]:
    for _ in range(300):  # the launcher ends all processes with the first: let the others tell their story
        if all(os.path.exists(os.path.join(out, f"probe.{r}.json")) for r in range(MPI.COMM_WORLD.size)):
            break
        time.sleep(0.1)
    os._exit(7)
"""

WRAPPER = r"""#!/bin/bash
# stand-in for the compiler: records the call, exposes an unfinished library for a while
echo "$$ $*" >> "$VF_CCLOG"
prev=""; target=""
for a in "$@"; do [ "$prev" = "-o" ] && target="$a"; prev="$a"; done
case "$target" in *.so) echo unfinished > "$target"; sleep "$VF_CCDELAY"; rm -f "$target";; esac
exec REAL "$@" -O0
"""


def drive(chk):
    import concurrent.futures, glob, json, re, shutil, signal, stat, subprocess, sysconfig, tempfile, time
    import numpy as np
    from vf import env

    r = np.random.default_rng([chk.seed, 28])
    root = os.path.join(chk.scratch, "build")
    os.makedirs(root)
    probe = os.path.join(root, "probe.py")
    open(probe, "w").write(PROBE)
    wrappers = {}
    for var, default in (("CC", "gcc"), ("CXX", "g++")):
        real = shutil.which((sysconfig.get_config_var(var) or default).split()[0]) or shutil.which(default)
        wrappers[var] = os.path.join(root, "wrap-" + var)
        open(wrappers[var], "w").write(WRAPPER.replace("REAL", real))
        os.chmod(wrappers[var], 0o755)

    class Copy:
        """A scratch copy of the project with marks in its kernel sources."""

        def __init__(self, name):
            self.dir = tempfile.mkdtemp(prefix="c_" + name, dir=root)
            shutil.copytree(os.path.join(env.REPO, "wx_factory"), os.path.join(self.dir, "wx_factory"), ignore=shutil.ignore_patterns("__pycache__"))
            shutil.copytree(os.path.join(env.REPO, "config"), os.path.join(self.dir, "config"))
            src = os.path.join(self.dir, "wx_factory", "pde")
            self.files, self.marks, self.text = {}, {}, {}
            mods = []
            for f in sorted(glob.glob(src + "/**/*", recursive=True)):
                if f.endswith((".cpp", ".h", ".hpp")):
                    text = open(f).read()
                    if f.endswith(".cpp") and "PYBIND11_MODULE" in text:
                        mods.append(f)
                    if not f.endswith(".cpp"):
                        n = re.sub(r"\W", "_", os.path.relpath(f, src))
                        self.files[n], self.marks[n], self.text[n] = f, 1, text
            if len(mods) != 1:
                raise RuntimeError("cannot find the kernel module definition")
            text = open(mods[0]).read()
            names = list(self.files)
            self.files["module"], self.marks["module"] = mods[0], 1
            at = re.search(r"PYBIND11_MODULE\s*\(\s*[^,]+,\s*(\w+)\s*\)\s*\{", text)
            lines = "".join(f"\n#ifdef VFMARK_{n}\n{at.group(1)}.attr(\"vfmark_{n}\") = VFMARK_{n};\n#endif" for n in names + ["module"])
            self.text["module"] = text[: at.end()] + lines + "\n" + text[at.end():]
            for n in self.files:
                self.write(n)

        def write(self, n, broken=False):
            mark = f"\n#define VFMARK_{n} {self.marks[n]}\n" if not broken else "\nthis does not compile;\n"
            body = mark + self.text[n] if n == "module" else self.text[n] + mark
            open(self.files[n], "w").write(body)

        def edit(self, n):
            self.marks[n] += 1
            self.write(n)

        def libs(self):
            return sorted(glob.glob(os.path.join(self.dir, "lib", "**", "*.so"), recursive=True))

        def launch(self, np_, force=False):
            out = tempfile.mkdtemp(prefix="o_", dir=root)
            log = os.path.join(out, "cc.log")
            e = env.child_env({"CC": wrappers["CC"], "CXX": wrappers["CXX"], "VF_CCLOG": log, "VF_CCDELAY": "0.7"})
            p = subprocess.Popen(["mpirun", "-n", str(np_), env.PY, probe, out, self.dir, "force" if force else "-"], cwd=out, env=e,
                                 stdout=open(os.path.join(out, "log"), "wb"), stderr=subprocess.STDOUT, start_new_session=True, stdin=subprocess.DEVNULL)
            hung = False
            try:
                p.wait(timeout=180)
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                for pid in [x for x in os.listdir("/proc") if x.isdigit()]:
                    try:
                        if os.readlink(f"/proc/{pid}/cwd") == out:
                            os.kill(int(pid), signal.SIGKILL)
                    except OSError:
                        pass
            recs = [json.load(open(f)) for f in glob.glob(os.path.join(out, "probe.*.json"))]
            calls = open(log).read().splitlines() if os.path.exists(log) else []
            left = [f for f in os.listdir(out) if f not in ("cc.log", "log") and not f.startswith("probe.")]
            text = open(os.path.join(out, "log"), errors="replace").read()
            shutil.rmtree(out, ignore_errors=True)
            return hung, recs, calls, text, left

    def sources(calls):
        """What each compiler call compiled (source file) or linked (library)."""
        out = []
        for c in calls:
            words = c.split()[1:]
            if "-c" in words:
                out += [os.path.basename(w) for w in words if w.endswith((".cpp", ".c", ".cc"))]
            elif "-o" in words and words[words.index("-o") + 1].endswith(".so"):
                out.append("link")
        return out

    def observe(cp, step, np_, expect, force=False):
        """expect: 'build' (must compile), 'none' (must not), 'ok' (either), 'fail' (no process may start)."""
        before = {f: os.stat(f).st_mtime_ns for f in cp.libs()}
        hung, recs, calls, text, left = cp.launch(np_, force)
        what = sources(calls)
        yield ("case", f"{step} np{np_}")
        yield ("count", "launches", 1)
        yield ("count", "processes", len(recs))
        yield ("count", "compiler_calls", len(calls))
        where = f"(step '{step}', {np_} processes)"
        if hung:
            yield ("violation", "hang", f"processes did not end the start-up {where}")
            return
        if left:
            yield ("violation", "left", f"the start left {left} in the current folder {where}")
        if expect == "fail":
            yield ("count", "refused", sum(1 for x in recs if x["error"]))
            started = [x["rank"] for x in recs if not x["error"]]
            if started:
                yield ("violation", "old-code", f"processes {started} started with marks {recs[0]['marks']} although the current sources cannot be compiled {where}")
            elif len(recs) != np_:
                yield ("violation", "left-waiting", f"only {len(recs)} of {np_} processes were told that the sources cannot be compiled {where}")
            return
        bad = [x for x in recs if x["error"]]
        if bad or len(recs) != np_:
            yield ("violation", "no-start", f"{len(bad)} of {np_} processes could not start {where}: {[x['error'] for x in bad][:2]} {text[-700:] if not bad else ''}")
            return
        for x in recs:
            stale = {n: (v, cp.marks[n]) for n, v in x["marks"].items() if v != cp.marks[n]}
            yield ("count", "marks_compared", len(x["marks"]))
            if "module" not in x["marks"] or len(x["marks"]) < 2:
                yield ("lost", f"marks not found: {x['marks']}", text)
            if stale:
                yield ("violation", "stale:" + sorted(stale)[0], f"process {x['rank']} runs kernels compiled from an earlier version of {sorted(stale)}: version {stale} (found, current) {where}")
        if len({x["file"] for x in recs}) != 1:
            yield ("violation", "files", f"processes load different libraries {sorted({x['file'] for x in recs})} {where}")
        for s in set(what):
            if what.count(s) > 1:
                yield ("violation", "repeated", f"{'the library was linked' if s == 'link' else s + ' was compiled'} {what.count(s)} times in one start {where}")
        if expect == "build":
            yield ("count", "builds", 1)
        if expect == "none":
            yield ("count", "reused", 1)
            after = {f: os.stat(f).st_mtime_ns for f in cp.libs()}
            if what or after != before:
                yield ("violation", "rebuilt", f"kernels were compiled again although nothing changed: {what} {where}")

    def count(n):
        return int(r.choice([1, 2, 4, 6])) if n is None else n

    def history(name, plan, nps):
        def job():
            cp = Copy(name)
            for (step, arg), np_ in zip(plan, nps):
                if step == "fresh":
                    yield from observe(cp, "fresh copy", np_, "build")
                elif step == "same":
                    yield from observe(cp, "nothing changed", np_, "none")
                elif step == "edit":
                    names = list(cp.files)
                    n = arg if isinstance(arg, str) else names[arg % len(names)]
                    cp.edit(n)
                    yield from observe(cp, f"edited {n}", np_, "build")
                elif step == "broken":
                    names = [n for n in cp.files]
                    n = names[arg % len(names)]
                    cp.marks[n] += 1
                    cp.write(n, broken=True)
                    yield from observe(cp, f"broken {n}", np_, "fail")
                    yield from observe(cp, f"still broken {n}", 1, "fail")
                    cp.write(n)
                    yield from observe(cp, f"repaired {n}", count(None), "build")
                elif step == "replaced":
                    for f in cp.libs():  # something else in place of the library, newer than all sources
                        open(f, "wb").write(b"\x7fELF something else")
                    cp.edit("module")
                    late = time.time() + 1000
                    for f in cp.libs():
                        os.utime(f, (late, late))
                    yield from observe(cp, "forced over a newer file", np_, "build", force=True)
                elif step == "forced":
                    before = {f: os.stat(f).st_mtime_ns for f in cp.libs()}
                    yield from observe(cp, "forced, nothing changed", np_, "build", force=True)
                    if {f: os.stat(f).st_mtime_ns for f in cp.libs()} == before:
                        yield ("violation", "not-forced", f"a forced rebuild did not rebuild ({np_} processes)")
            shutil.rmtree(cp.dir, ignore_errors=True)
        return job

    k = [int(x) for x in r.permutation(40)]
    plans = [
        [("fresh", None), ("same", None), ("edit", k[0]), ("same", None)],
        [("fresh", None), ("edit", "module"), ("edit", k[1])],
        [("fresh", None), ("broken", k[2])],
        [("fresh", None), ("replaced", None), ("forced", None)],
        [("fresh", None), ("edit", k[0] + 1), ("edit", k[0] + 2)],
        [("fresh", None), ("edit", k[0] + 3), ("edit", k[0] + 4)],
    ]
    if chk.thorough:
        for j in range(10):
            plans.append([("fresh", None)] + [[("edit", k[j + q]), ("same", None), ("broken", k[j + q + 3]), ("forced", None), ("replaced", None)][int(r.integers(5))] for q in range(6)])
    jobs = [history(f"h{i}_", p, [count(6 if i == 0 and j == 0 else None) for j in range(len(p))]) for i, p in enumerate(plans)]

    def run(job):
        return list(job())

    with concurrent.futures.ThreadPoolExecutor(3 if chk.thorough else 6) as pool:
        for res in pool.map(run, jobs):
            for e in res:
                if e[0] == "case":
                    chk.case(e[1] + f" {len(chk.distinct)}")
                    chk.sample(e[1])
                elif e[0] == "count":
                    chk.count(e[1], e[2])
                elif e[0] == "violation":
                    chk.violation(e[1], e[2])
                elif e[0] == "lost":
                    chk.error(e[1] + "\n" + e[2][-1500:])
    chk.require("launches", 15)
    chk.require("builds", 10)
    chk.require("marks_compared", 100)
    chk.require("compiler_calls", 10)
    chk.require("refused", 1)
    chk.require("reused", 2)


if __name__ == "__main__":
    driver.main("C28", RULE, drive, lambda rec, spec: None)
