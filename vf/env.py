"""Process environment: paths, MPI settings, and the rebuild of the compiled kernels from the current tree."""

import fcntl
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VF_REPO", "/repo"))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def child_env(extra=None):
    env = dict(os.environ)
    env.update(
        PATH="/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin"),
        OMPI_ALLOW_RUN_AS_ROOT="1",
        OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_rmaps_base_oversubscribe="1",
        OMPI_MCA_mpi_yield_when_idle="1",
        OMPI_MCA_plm="isolated",
        OMPI_MCA_plm_rsh_agent="/bin/false",
        OMPI_MCA_btl="self,vader",
        OMPI_MCA_btl_vader_single_copy_mechanism="none",
        OMPI_MCA_pml="ob1",
        HOME=env.get("HOME", "/root"),
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
        TMPDIR="/tmp",
        OMPI_MCA_hwloc_base_binding_policy="none",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
        VF_REPO=REPO,
    )
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONHOME", None)
    if extra:
        env.update({k: str(v) for k, v in extra.items()})
    return env


def kernel_source_hash():
    h = hashlib.sha256()
    files = []
    for sub in ("pde", "compiler"):
        for ext in ("cpp", "h", "hpp", "py"):
            files += glob.glob(os.path.join(REPO, "wx_factory", sub, "**", "*." + ext), recursive=True)
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def ensure_kernels():
    """Make sure the compiled kernels correspond to the *content* of the current tree (the project itself only
    compares time stamps). Only touches the git-ignored lib folder."""
    lib = os.path.join(REPO, "lib")
    os.makedirs(lib, exist_ok=True)
    with open(os.path.join(lib, ".vf-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _ensure_kernels(lib)


def _ensure_kernels(lib):
    stamp = os.path.join(lib, ".vf-kernel-hash")
    want = kernel_source_hash()
    have = open(stamp).read().strip() if os.path.exists(stamp) else None
    libs = glob.glob(os.path.join(lib, "pde", "*", "cpp", "*.so"))
    force = not (have == want and libs)
    code = (
        "import sys; sys.path[:0]=[%r,%r]\n"
        "import compiler.compile_kernels as k\n"
        "k.compile('pde','cpp',force=%r)\n"
        "k.load_module('pde','cpp')\n" % (REPO, os.path.join(REPO, "wx_factory"), force)
    )
    r = subprocess.run(
        [PY, "-c", code], cwd=REPO, env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600
    )
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace"))
        raise RuntimeError("cannot build the kernels from the current tree")
    with open(stamp, "w") as f:
        f.write(want)
    return force
