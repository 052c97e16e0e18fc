"""Assembles and splits global fields without using the code under test."""

import numpy as np

from . import cube


def gather(comm, local, axis):
    """Global array (6, ...) on rank 0, tiles joined along `axis` (x2) and `axis`+1 (x1)."""
    parts = comm.gather(np.array(local), root=0)
    if comm.rank != 0:
        return None
    t = cube.Tiles(comm.size)
    n = t.n
    panels = []
    for p in range(6):
        rows = [np.concatenate(parts[p * n * n + r * n: p * n * n + (r + 1) * n], axis=axis + 1) for r in range(n)]
        panels.append(np.concatenate(rows, axis=axis))
    return np.stack(panels)


def tile(glob, size, rank, axis):
    """The part of a global array (6, ...) that belongs to one rank (axis as in `gather`, without the panel axis)."""
    t = cube.Tiles(size)
    p, row, col = t.locate(rank)
    a = glob[p]
    m = a.shape[axis] // t.n
    idx = [slice(None)] * a.ndim
    idx[axis] = slice(row * m, (row + 1) * m)
    idx[axis + 1] = slice(col * m, (col + 1) * m)
    return np.ascontiguousarray(a[tuple(idx)])


def q_axis(sim):
    """Position of the x2 element axis in the state vector."""
    return sim.initial_Q.ndim - 3


def random_like(sim, comm, seed, amp, cplx=False):
    """Perturbed copy of the initial state; the perturbation only depends on the global position of each point."""
    ax = q_axis(sim)
    shp = list(sim.initial_Q.shape)
    n = cube.Tiles(comm.size).n
    shp[ax] *= n
    shp[ax + 1] *= n
    rng = np.random.default_rng(seed)
    G = rng.uniform(-1, 1, [6] + shp)
    loc = tile(G, comm.size, comm.rank, ax)
    Q0 = np.array(sim.initial_Q)
    scale = comm.allreduce([float(np.max(np.abs(Q0[i]))) for i in range(Q0.shape[0])],
                           op=_maxlist_op())
    Q = Q0.copy()
    for i in range(Q0.shape[0]):
        s = scale[i] if scale[i] > 0 else scale[0] * 1e-6
        if i in positive_vars(sim):
            Q[i] = Q0[i] * (1 + amp * loc[i])
        else:
            Q[i] = Q0[i] + amp * s * loc[i]
    if cplx:
        G2 = rng.uniform(-1, 1, [6] + shp)
        l2 = tile(G2, comm.size, comm.rank, ax)
        Q = Q + 1j * 1e-8 * np.array(scale).reshape((-1,) + (1,) * (Q.ndim - 1)) * l2
    return Q


def positive_vars(sim):
    n = sim.initial_Q.shape[0]
    if n == 3:
        return (0,)
    if n == 4:
        return (0, 3)
    return (0, 4)


def _maxlist_op():
    from mpi4py import MPI

    def f(a, b):
        return [max(x, y) for x, y in zip(a, b)]

    # mpi4py's lowercase allreduce accepts a python callable
    return f
