"""Nothing has to be built outside the checks; this only confirms that the interpreter, MPI and the kernels work."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import env

env.ensure_kernels()
print("kernels ready")
