"""Independent geometric model of the cubed sphere: embeds every panel in 3-D space from the published definition of
the equiangular gnomonic projection. Nothing here is taken from the code under test except the documented panel layout
and the documented numbering of processes (rows increase with x2, columns with x1)."""

import numpy as np

# Unit cube faces: (centre, direction of increasing x1, direction of increasing x2)
_FACES = [
    ((1, 0, 0), (0, 1, 0), (0, 0, 1)),  # 0: front
    ((0, 1, 0), (-1, 0, 0), (0, 0, 1)),  # 1: east of 0
    ((-1, 0, 0), (0, -1, 0), (0, 0, 1)),  # 2: back
    ((0, -1, 0), (1, 0, 0), (0, 0, 1)),  # 3: west of 0
    ((0, 0, 1), (0, 1, 0), (-1, 0, 0)),  # 4: above 0
    ((0, 0, -1), (0, 1, 0), (1, 0, 0)),  # 5: below 0
]
FACES = [tuple(np.array(v, dtype=float) for v in f) for f in _FACES]

SOUTH, NORTH, WEST, EAST = range(4)


def position(panel, x1, x2):
    """Unit vector of the point with angular coordinates (x1, x2) on a panel (shape: x1.shape + (3,))."""
    c, e1, e2 = FACES[panel]
    X, Y = np.tan(np.asarray(x1, float)), np.tan(np.asarray(x2, float))
    X, Y = np.broadcast_arrays(X, Y)
    p = c + X[..., None] * e1 + Y[..., None] * e2
    return p / np.linalg.norm(p, axis=-1, keepdims=True)


def basis(panel, x1, x2):
    """Tangent vectors d(position)/dx1 and d(position)/dx2 on the unit sphere."""
    c, e1, e2 = FACES[panel]
    X, Y = np.broadcast_arrays(np.tan(np.asarray(x1, float)), np.tan(np.asarray(x2, float)))
    p = c + X[..., None] * e1 + Y[..., None] * e2
    r = np.linalg.norm(p, axis=-1, keepdims=True)
    out = []
    for T, e in ((X, e1), (Y, e2)):
        dp = (1.0 + T[..., None] ** 2) * e
        out.append(dp / r - p * np.sum(p * dp, axis=-1, keepdims=True) / r**3)
    return out


def contra_from_vec(panel, x1, x2, v):
    """Contravariant components of the tangent vector(s) v."""
    a1, a2 = basis(panel, x1, x2)
    g11, g12, g22 = np.sum(a1 * a1, -1), np.sum(a1 * a2, -1), np.sum(a2 * a2, -1)
    b1, b2 = np.sum(a1 * v, -1), np.sum(a2 * v, -1)
    det = g11 * g22 - g12**2
    return (g22 * b1 - g12 * b2) / det, (g11 * b2 - g12 * b1) / det


def cov_from_vec(panel, x1, x2, v):
    a1, a2 = basis(panel, x1, x2)
    return np.sum(a1 * v, -1), np.sum(a2 * v, -1)


def vec_from_contra(panel, x1, x2, u1, u2):
    a1, a2 = basis(panel, x1, x2)
    return u1[..., None] * a1 + u2[..., None] * a2


def vec_from_cov(panel, x1, x2, b1, b2):
    a1, a2 = basis(panel, x1, x2)
    g11, g12, g22 = np.sum(a1 * a1, -1), np.sum(a1 * a2, -1), np.sum(a2 * a2, -1)
    det = g11 * g22 - g12**2
    u1, u2 = (g22 * b1 - g12 * b2) / det, (g11 * b2 - g12 * b1) / det
    return u1[..., None] * a1 + u2[..., None] * a2


class Tiles:
    """Model of the decomposition of the cube in 6 n^2 tiles."""

    def __init__(self, size):
        n = int(round((size / 6) ** 0.5))
        assert 6 * n * n == size
        self.size, self.n = size, n

    def locate(self, rank):
        n = self.n
        panel, r = divmod(rank, n * n)
        row, col = divmod(r, n)
        return panel, row, col

    def bounds(self, rank):
        panel, row, col = self.locate(rank)
        d = (np.pi / 2) / self.n
        return -np.pi / 4 + col * d, -np.pi / 4 + row * d, d

    def edge_coords(self, rank, side, frac):
        """Angular coordinates of points at fractions `frac` (0..1, in the direction of the local increasing
        coordinate) along one side of the tile."""
        x1, x2, d = self.bounds(rank)
        frac = np.asarray(frac, float)
        if side == SOUTH:
            return x1 + frac * d, np.full_like(frac, x2)
        if side == NORTH:
            return x1 + frac * d, np.full_like(frac, x2 + d)
        if side == WEST:
            return np.full_like(frac, x1), x2 + frac * d
        return np.full_like(frac, x1 + d), x2 + frac * d

    def neighbour(self, rank, side):
        """(rank, side, reversed) of the tile edge that occupies the same place in space."""
        if not hasattr(self, "_edges"):
            self._edges = {}
            ends = {}
            for r in range(self.size):
                p = self.locate(r)[0]
                for s in range(4):
                    a, b = self.edge_coords(r, s, [0.25, 0.75])
                    pos = position(p, a, b)
                    ends[(r, s)] = pos
            keys = {}
            for k, pos in ends.items():
                mid = tuple(np.round((pos[0] + pos[1]) / 2, 6) + 0.0)
                keys.setdefault(mid, []).append(k)
            for lst in keys.values():
                assert len(lst) == 2, lst
                a, b = lst
                rev = np.linalg.norm(ends[a][0] - ends[b][0]) > np.linalg.norm(ends[a][0] - ends[b][1])
                self._edges[a] = (b[0], b[1], bool(rev))
                self._edges[b] = (a[0], a[1], bool(rev))
        return self._edges[(rank, side)]
