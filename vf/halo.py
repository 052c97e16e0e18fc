"""Oracle for halo exchanges: what a tile must receive, computed from what every tile sent and from the independent
geometric model of the cube."""

import numpy as np

from . import cube


def _base(shape, bshape):
    """Reshape helper: leading dims + boundary shape."""
    n = int(np.prod(bshape))
    total = 1
    k = len(shape)
    while k > 0 and total < n:
        k -= 1
        total *= shape[k]
    assert total == n, (shape, bshape)
    return tuple(shape[:k]) + tuple(bshape)


def expected_scalar(tiles, rank, side, inputs, bshape, flip_dim):
    """inputs[r][s]: array given by rank r for side s."""
    nr, ns, rev = tiles.neighbour(rank, side)
    a = np.asarray(inputs[nr][ns])
    b = a.reshape(_base(a.shape, bshape))
    if rev:
        b = np.flip(b, axis=tuple(flip_dim) if isinstance(flip_dim, (list, tuple)) else flip_dim)
    return b.reshape(a.shape)


def edge_angles(tiles, rank, side, coord):
    """Angular coordinates of the points of a side, given their gnomonic coordinate along that side."""
    x1, x2, d = tiles.bounds(rank)
    t = np.arctan(np.asarray(coord, float))
    if side == cube.SOUTH:
        return t, np.full_like(t, x2)
    if side == cube.NORTH:
        return t, np.full_like(t, x2 + d)
    if side == cube.WEST:
        return np.full_like(t, x1), t
    return np.full_like(t, x1 + d), t


def expected_vector(tiles, rank, side, inputs, coords, flip_dim, covariant):
    """inputs[r][s]: tuple of component arrays; coords[r][s]: gnomonic coordinates along side s of rank r.
    Returns (components, distance between the places sender and receiver talk about)."""
    nr, ns, rev = tiles.neighbour(rank, side)
    comps = inputs[nr][ns]
    shape = np.shape(comps[0])
    bshape = np.shape(coords[nr][ns])
    base = _base(shape, bshape)
    fd = tuple(flip_dim) if isinstance(flip_dim, (list, tuple)) else flip_dim

    p_src, p_dst = tiles.locate(nr)[0], tiles.locate(rank)[0]
    s1, s2 = edge_angles(tiles, nr, ns, coords[nr][ns])
    d1, d2 = edge_angles(tiles, rank, side, coords[rank][side])

    def flip(a):
        return np.flip(a, axis=fd) if rev else a

    # places
    pos_s = cube.position(p_src, s1, s2)
    if rev:
        nb = len(bshape)
        axes = (fd,) if isinstance(fd, int) else fd
        axes = tuple(nb + a if a < 0 else a for a in axes)
        pos_s = np.flip(pos_s, axis=axes)
    dist = float(np.max(np.abs(pos_s - cube.position(p_dst, d1, d2))))

    a, b = (np.asarray(c).reshape(base) for c in comps[:2])
    if np.iscomplexobj(a):
        parts = [(a.real, b.real), (a.imag, b.imag)]
    else:
        parts = [(a, b)]
    res = []
    for u, v in parts:
        u, v = u.astype(np.longdouble).astype(float), v.astype(float)
        s1b, s2b = np.broadcast_to(s1, base), np.broadcast_to(s2, base)
        vec = (cube.vec_from_cov if covariant else cube.vec_from_contra)(p_src, s1b, s2b, u, v)
        # flip the points (all axes of flip_dim are boundary axes, the trailing axis is the vector component)
        if rev:
            axes = (fd,) if isinstance(fd, int) else fd
            vec = np.flip(vec, axis=tuple(a_ - 1 for a_ in axes))
        d1b, d2b = np.broadcast_to(d1, base), np.broadcast_to(d2, base)
        res.append((cube.cov_from_vec if covariant else cube.contra_from_vec)(p_dst, d1b, d2b, vec))
    if len(res) == 2:
        out = [res[0][0] + 1j * res[1][0], res[0][1] + 1j * res[1][1]]
    else:
        out = list(res[0])
    out = [o.reshape(shape) for o in out]
    if len(comps) == 3:
        out.append(flip(np.asarray(comps[2]).reshape(base)).reshape(shape))
    return out, dist
