import math

from engine.harness import harness
from harness.common import cols, comb
from harness.hulls import array, rows

FN = ["beam.Beam.__init__", "beam.Beam.set_beam_vertices", "beam.Beam._contains"]
STUB = ["scipy ConvexHull returns arbitrary half-spaces (rounding them to 6 decimals is the identity, the order of np.unique's rows is not modelled)"]


class Hull:
    """A convex hull with given half-spaces."""

    def __init__(self, h, points, equations, hull=True):
        import numpy as np

        self.points = points
        n = len(rows(h, points))
        self.vertices = np.arange(n if hull else n - 1)
        self.simplices = np.array([[0, 1, 2]])
        self.equations = array(h, equations)


def install(h, table):
    """ConvexHull looks up the half-spaces by the first coordinate of the first vertex (a concrete tag)."""
    from xrd_simulator import beam

    def hull(points, *a, **k):
        tag = rows(h, points)[0][0]
        for t, (eq, ok) in table.items():
            if h.decide(h.eq(tag, t)):
                return Hull(h, points, eq, ok)
        raise AssertionError("unknown vertices")

    h.patch(beam, "ConvexHull", hull)


def halfspaces(h, name, n):
    return [[h.real("%s%d%s" % (name, i, c), -2, 2) for c in "xyz"] + [h.real("%s%dd" % (name, i), -50, 50)] for i in range(n)]


def vertices(h, tag, n=4, name="v"):
    v = [[h.real("%s%d%d" % (name, i, j), -50, 50) for j in range(3)] for i in range(n)]
    v[0][0] = float(tag)
    return v


CUBE = [[1.0, 0, 0, -5], [-1.0, 0, 0, -5], [0, 1.0, 0, -5], [0, -1.0, 0, -5], [0, 0, 1.0, -5], [0, 0, -1.0, -5]]


def inside(h, eq, x):
    return h.and_(*[h.lt(h.dot(e[:3], x) + e[3], 0) for e in eq])


def make(h, v, kind=0, direction=(1.0, 0.0, 0.0), wavelength=0.5, pol=(0.0, 1.0, 0.0)):
    from xrd_simulator.beam import Beam

    conv = [h.tensor_of, lambda x: array(h, x), lambda x: list(x)][kind]
    return Beam(conv(v), conv(direction), wavelength, conv(pol))


@harness("P19", functions=FN, bounds="any direction and polarisation of any non-zero length, any wavelength; torch, numpy and list input", stubs=STUB, time=100)
def construct(h):
    """Wave vector of length 2 pi/wavelength along the direction; normalised polarisation; refused if not perpendicular."""
    kind = h.case("kind", [0, 1, 2])
    R = cols(h, h.rotmat("frame"))
    a, b = h.real("direction", 0.01, 100), h.real("pol", 0.01, 100)
    lam = h.real("wavelength", 0.01, 10)
    install(h, {7.0: (CUBE, True)})
    v = vertices(h, 7.0)
    k = [a * x for x in R[0]]
    p = [b * x for x in R[1]]
    out = make(h, v, kind, k, lam, p)
    h.check_eq(out.wave_vector, [2 * math.pi / lam * x for x in R[0]], "wave vector")
    h.check_eq(out.polarization_vector, R[1], "polarisation")
    h.check_eq(out.wavelength, lam, "wavelength")
    h.check_eq(out.vertices, v, "vertices")
    h.check_eq(out.centroid, [sum(r[i] for r in v) / 4 for i in range(3)], "centroid")


@harness("P19", functions=["beam.Beam.__init__"], bounds="any direction; any polarisation at least 1e-6 off the perpendicular plane", stubs=STUB, time=100)
def refused(h):
    """A polarisation vector that is not perpendicular to the wave vector is refused."""
    R = cols(h, h.rotmat("frame"))
    lam = h.real("wavelength", 0.01, 10)
    c, s = h.unit_scalars("tilt", 2)
    h.assume(h.gt(c * c, 1e-12, exact=True))
    install(h, {7.0: (CUBE, True)})
    h.check_raises(AssertionError, lambda: make(h, vertices(h, 7.0), 0, R[0], lam, comb([0.0, 0.0, 0.0], (c, R[0]), (s, R[1]))), "not perpendicular")


@harness("P19", functions=["beam.Beam._contains"], bounds="2 half-spaces of any coefficients, 2 points in one array", stubs=STUB, time=100, max_paths=600)
def contains(h):
    """Contained exactly if strictly inside every half-space, whatever the other points."""
    eq = halfspaces(h, "e", 2)
    install(h, {7.0: (eq, True)})
    beam = make(h, vertices(h, 7.0))
    pts = [[h.real("p%d%d" % (i, j), -50, 50) for j in range(3)] for i in range(2)]
    got = h.vals(beam._contains(h.tensor_of([list(c) for c in zip(*pts)])))
    h.check(len(got) == 2, "one value per point")
    for i in range(2):
        h.check(_same(h, got[i], inside(h, eq, pts[i])), "point %d" % i)


def _same(h, a, b):
    if h.concrete:
        return b is None or bool(a) == b
    return h.and_(h.implies(a, b), h.implies(b, a))


@harness("P19", functions=["beam.Beam._contains"], bounds="3 half-spaces of any coefficients; a single point, or three points of which one is arbitrary; torch and numpy input", stubs=STUB, time=100, max_paths=600)
def contains_one(h):
    """A single point, and any position among other points."""
    eq = halfspaces(h, "e", 3)
    install(h, {7.0: (eq, True)})
    beam = make(h, vertices(h, 7.0))
    p = [h.real("p%d" % j, -50, 50) for j in range(3)]
    k = h.case("position", [-1, 0, 1, 2])
    conv = h.tensor_of if h.flag("torch") else (lambda x: array(h, x))
    if k < 0:
        got = h.val(beam._contains(conv(p)))
    else:
        pts = [[1.0, 2.0, 3.0], [-4.0, 0.5, 1.0], [100.0, 2.0, -3.0]]
        pts[k] = p
        got = h.vals(beam._contains(conv([list(c) for c in zip(*pts)])))
        h.check(len(got) == 3, "one value per point")
        got = got[k]
    h.check(_same(h, got, inside(h, eq, p)), "contained")


@harness("P19", functions=["beam.Beam.set_beam_vertices", "beam.Beam._contains"], bounds="replacing 4 vertices by 4 or 5 arbitrary ones, twice; any point", stubs=STUB, time=100, max_paths=600)
def replace(h):
    """Replacing the vertices updates vertices, centroid and half-spaces together; the caller's tensor stays its own."""
    e1, e2 = halfspaces(h, "e", 2), halfspaces(h, "f", 2)
    install(h, {7.0: (e1, True), 8.0: (e2, True), 9.0: (e1, False)})
    beam = make(h, vertices(h, 7.0))
    n = h.case("n", [4, 5])
    v = vertices(h, 8.0, n, "w")
    given = h.tensor_of(v)
    beam.set_beam_vertices(given)
    if h.flag("refused"):
        h.check_raises(AssertionError, lambda: beam.set_beam_vertices(h.tensor_of(vertices(h, 9.0, 5, "u"))), "vertices inside the hull")
    given += 1.0
    p = [h.real("p%d" % j, -50, 50) for j in range(3)]
    h.check_eq(beam.vertices, v, "vertices")
    h.check_eq(beam.centroid, [sum(r[i] for r in v) / n for i in range(3)], "centroid")
    h.check(_same(h, h.val(beam._contains(h.tensor_of(p))), inside(h, e2, p)), "half-spaces")
