"""Orientation sampling from a density: unit quaternions, bins tiling the half-sphere, draws inside the drawn bin."""
import itertools
import math

from engine.harness import harness
from harness.hulls import array

MARK = 7.0
STUB = [
    "np.random (rand, random, uniform, choice) returns arbitrary numbers of the documented range; choice returns any listed index",
    "in the drawing harness the quaternion of at most 7 angle triples is a record of the angles (the formula itself is the quaternion harness), and scipy's Rotation.from_quat is taken as the rotation of its quaternion",
]


def quaternion(h, a1, a2, a3):
    s1, s2 = h.sin(a1), h.sin(a2)
    return [h.cos(a1), s1 * s2 * h.cos(a3), s1 * s2 * h.sin(a3), s1 * h.cos(a2)]


@harness("P30", functions=["utils._alpha_to_quarternion"], bounds="any three angles, one or two triples", time=100)
def quaternions(h):
    """Unit norm for every triple of angles, and the density's angles are the coordinates of the 3-sphere."""
    from xrd_simulator import utils

    n = h.case("triples", [1, 2])
    a = [[h.real("a%d%d" % (i, k), -7, 7) for i in range(n)] for k in range(3)]
    q = h.vals(utils._alpha_to_quarternion(*[array(h, x) for x in a]))
    h.check(len(q) == n and all(len(r) == 4 for r in q), "one quaternion per triple")
    for i, r in enumerate(q):
        h.check(h.eq(h.dot(r, r), 1), "unit norm")
        # the surface element of the sphere in these angles is sin(a1)^2 sin(a2), the volume of the bins
        h.check(h.eq(r[0], h.cos(a[0][i])), "first angle from the first axis")
        h.check(h.eq(h.dot(r[1:], r[1:]), h.sin(a[0][i]) * h.sin(a[0][i])), "first angle")
        rest = [h.dot([x], [x]) for x in r[1:]]
        s = h.sin(a[0][i]) * h.sin(a[1][i])
        c = h.sin(a[0][i]) * h.cos(a[1][i])
        h.check(h.or_(*[h.and_(h.eq(rest[k], c * c), h.eq(rest[(k + 1) % 3] + rest[(k + 2) % 3], s * s)) for k in range(3)]), "second angle")


def volume(a, da):
    """Measure of the bin on the unit 3-sphere."""
    f = lambda x: 0.5 * (x - math.sin(x) * math.cos(x))
    return (f(a[0] + da) - f(a[0] - da)) * (math.cos(a[1] - da) - math.cos(a[1] + da)) * 2 * da


class Chance:
    """Stand-ins of the random generators and of the rotations."""

    def __init__(self, h, picks):
        import numpy as np
        from xrd_simulator import templates, utils

        self.h, self.picks = h, list(picks)
        self.u, self.drawn, self.quats = [], [], []
        real = utils._alpha_to_quarternion

        def record(a, b, c):
            a, b, c = (np.asarray(x) if not hasattr(x, "shape") else x for x in (a, b, c))
            if int(np.prod(a.shape, dtype=int)) > 7:
                return real(a, b, c)
            cols = [h.vals(x.reshape(-1)) for x in (a, b, c)]
            rows = [list(r) + [MARK] for r in zip(*cols)]
            return array(h, rows if a.shape else rows[0])

        def uniform(low=0.0, high=1.0, size=None):
            n = 1 if size is None else int(np.prod(size, dtype=int))
            vals = []
            for _ in range(n):
                u = h.real("u%d" % len(self.u), 0, 0.999)
                self.u.append(u)
                vals.append(low + (high - low) * u)
            out = array(h, vals)
            return out[0] if size is None else out.reshape(size)

        def choice(a, size=None, replace=True, p=None):
            idx = list(range(int(a))) if np.ndim(a) == 0 else [int(x) for x in a]
            k = self.picks[len(self.drawn)](len(idx))
            self.drawn.append((idx, None if p is None else h.vals(p), idx[k]))
            return idx[k] if size is None else np.full(size, idx[k])

        class Rotation:
            def __init__(self, m, one):
                self.m, self.one = m, one

            @classmethod
            def from_quat(cls, q, *a, **k):
                v = h.vals(q)
                one = len(getattr(q, "shape", np.shape(q))) == 1
                return cls([self.matrix(x) for x in ([v] if one else v)], one)

            def as_matrix(self):
                return array(h, self.m[0] if self.one else self.m)

        for o in (utils, templates):
            if hasattr(o, "_alpha_to_quarternion"):
                h.patch(o, "_alpha_to_quarternion", record)
        h.patch(np.random, "rand", lambda *s: uniform(size=s if s else None))
        h.patch(np.random, "random", lambda size=None: uniform(size=size))
        h.patch(np.random, "random_sample", lambda size=None: uniform(size=size))
        h.patch(np.random, "uniform", uniform)
        h.patch(np.random, "choice", choice)
        h.patch(templates, "Rotation", Rotation)

    def matrix(self, q):
        """The rotation of a quaternion, scalar last; records are kept as they are."""
        h = self.h
        try:
            mark = float(q[3]) == MARK
        except Exception:
            mark = False
        if mark:
            return [list(q[:3]), [MARK, 0.0, 0.0], [0.0, 0.0, 0.0]]
        x, y, z, w = q
        return [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]


def grid(n):
    """Bin centres for n bins in the first angle, and the half width."""
    d = math.pi / 2 / n
    return [((i + 0.5) * d, (j + 0.5) * d, (k + 0.5) * d) for i in range(n) for j in range(2 * n) for k in range(4 * n)], d / 2


def locate(q, centres):
    """Which bin each row is the centre of; None when a row is no bin centre or a bin has no row."""
    at = {}
    for b, c in enumerate(centres):
        s1, s2 = math.sin(c[0]), math.sin(c[1])
        at[tuple(round(x, 5) + 0.0 for x in (math.cos(c[0]), s1 * s2 * math.cos(c[2]), s1 * s2 * math.sin(c[2]), s1 * math.cos(c[1])))] = b
    keys = list(at)
    out = []
    for r in q:
        r = [float(x) for x in r]
        near = [k for k in keys if max(abs(x - y) for x, y in zip(r, k)) < 2e-5]
        if len(near) != 1:
            return None
        out.append(at[near[0]])
    return out if len(set(out)) == len(out) == len(centres) else None


def density(h, seen):
    """1/pi^2 with a part that depends on the place and on the orientation."""

    def f(x, q):
        import numpy as np

        xs, qs = h.vals(x), np.asarray(q, dtype=float)
        seen.append((xs, qs))
        g = (qs[:, 1:4] ** 2 - 0.25).tolist()
        return array(h, [(1 + h.dot(xs, r)) / math.pi**2 for r in g])

    return f


@harness("P30", functions=["templates._sample_ODF"], stubs=STUB, bounds="8, 64 or 216 bins (any separation from 0.8 to 3.14 radians), 2 elements anywhere in a 0.1 box, a density linear in the place and quadratic in the orientation; every bin drawn on the coarse grid, four resp. two bins drawn on the finer ones", time=400, max_paths=200)
def draws(h):
    """Bin probabilities are volume times density at the element; drawn orientations lie in their bin."""
    import numpy as np
    from xrd_simulator import templates

    n = h.case("bins", [1, 2, 3])
    lo, hi = {1: (1.6, 3.14), 2: (1.05, 1.57), 3: (0.8, 1.04)}[n]
    sep = h.real("separation", lo, hi)
    centres, half = grid(n)
    N = len(centres)
    first = h.case("drawn", {1: [0, 1, 2, 3, 4, 6, 7], 2: [0, 17, 63], 3: [9]}[n])
    second = (first + 3) % N
    x = [[h.real("x%d%d" % (e, i), -0.1, 0.1) for i in range(3)] for e in range(2)]
    seen = []
    ch = Chance(h, [lambda m: min(first, m - 1), lambda m: min(second, m - 1)])
    R = templates._sample_ODF(density(h, seen), sep, array(h, x))
    h.check(tuple(R.shape) == (2, 3, 3), "one rotation per element")
    h.check(len(ch.drawn) == 2, "one bin drawn per element")
    if tuple(R.shape) != (2, 3, 3) or len(ch.drawn) != 2:
        return
    bins = locate(seen[0][1], centres)
    h.check(bins is not None, "the bins tile the half-sphere")
    if bins is None:
        return
    h.check(all(s[1].shape == seen[0][1].shape and np.allclose(s[1], seen[0][1]) for s in seen), "same bins for every element")
    for e in range(2):
        idx, p, pick = ch.drawn[e]
        h.check(p is not None and len(p) == N and sorted(idx) == list(range(N)), "every bin can be drawn")
        if p is None or len(p) != N or sorted(idx) != list(range(N)):
            return
        weight = []
        for i in idx:
            q = [float(v) for v in seen[0][1][i]]
            weight.append(volume(centres[bins[i]], half) * (1 + h.dot(x[e], [v * v - 0.25 for v in q[1:]])))
        total = sum(weight)
        h.check(h.and_(*[h.lt(h.abs(p[i] * total - weight[i]), 1e-6) for i in range(N)]), "probability of every bin")
        inside(h, ch, h.vals(R[e]), centres[bins[pick]], half)


def inside(h, ch, m, c, half):
    try:
        mark = float(m[1][0]) == MARK and float(m[2][2]) == 0.0
    except Exception:
        mark = False
    if mark:
        a = m[0]
        h.check(h.and_(*[h.and_(h.ge(a[i], c[i] - half - 1e-6), h.le(a[i], c[i] + half + 1e-6)) for i in range(3)]), "inside the drawn bin")
        return
    # the quaternion was written out: the rotation is that of three uniform draws across the bin
    options = []
    for u in itertools.permutations(ch.u, 3):
        q = quaternion(h, *[c[i] + 2 * half * (u[i] - 0.5) for i in range(3)])
        want = ch.matrix(q)
        options.append(h.and_(*[h.lt(h.abs(m[i][j] - want[i][j]), 1e-5) for i in range(3) for j in range(3)]))
    h.check(h.or_(*options), "uniform draw inside the drawn bin")
