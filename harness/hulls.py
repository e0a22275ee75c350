"""Stand-ins for scipy's ConvexHull, HalfspaceIntersection and linprog on symbolic input."""


def rows(h, points):
    return [list(r) for r in h.vals(points)]


class BoxHull:
    """Convex hull of the eight corners of an axis-aligned box, in any order."""

    def __init__(self, h, points):
        import numpy as np

        v = rows(h, points)
        ext = []
        for k in range(3):
            lo = hi = v[0][k]
            for r in v[1:]:
                lo = r[k] if h.decide(h.lt(r[k], lo)) else lo
                hi = r[k] if h.decide(h.gt(r[k], hi)) else hi
            ext.append((lo, hi))
        corners = {tuple(0 if h.decide(h.eq(r[k], ext[k][0])) else 1 if h.decide(h.eq(r[k], ext[k][1])) else 2 for k in range(3)) for r in v}
        if len(v) != 8 or corners != {(i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)}:
            raise AssertionError("not the corners of a box")
        self.points = points
        self.vertices = np.arange(8)
        eq = []
        for k in range(3):
            n = [0.0, 0.0, 0.0]
            n[k] = 1.0
            m = [0.0, 0.0, 0.0]
            m[k] = -1.0
            eq += [n + [-ext[k][1]], m + [ext[k][0]]]
        self.equations = array(h, eq)


def array(h, x):
    """A numpy array of (symbolic) numbers."""
    import numpy as np

    if h.concrete:
        return np.array(x, dtype=float)
    return h.tensor_of(x).numpy()
