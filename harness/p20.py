from engine.harness import harness
from harness.hulls import array, rows
from harness.p19 import halfspaces, make

FN = ["beam.Beam._intersect", "beam.Beam._find_feasible_point", "beam.Beam._contains"]
STUB = [
    "scipy ConvexHull returns the element's exact half-spaces and arbitrary ones for the beam",
    "HalfspaceIntersection records its arguments",
    "linprog returns any point of the closed feasible set (an interior point, or a vertex with exactly three active half-spaces) or no success",
]


class Result:
    pass


def linear_program(h, x, kind, seen):
    """linprog that finds the point x (no success if x is None or not allowed by the bounds)."""

    def linprog(c=None, A_ub=None, b_ub=None, bounds=(0, None), **k):
        A = rows(h, A_ub)
        b = h.vals(b_ub)
        seen.append((A, b))
        r = Result()
        lower = bounds[0] if isinstance(bounds, tuple) else bounds
        r.success = x is not None and (lower is None or all(h.decide(h.ge(v, lower)) for v in x))
        if r.success:
            r.x = array(h, x)
            s = []
            for i, row in enumerate(A):
                v = b[i] - h.dot(row, x)
                if kind == "vertex" and i < 3:
                    v = 0.0
                else:
                    h.assume(h.gt(v, 0, exact=True))
                s.append(v)
            r.slack = array(h, s)
        return r

    return linprog


AXES = [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0]]


@harness("P20", functions=["beam.Beam._find_feasible_point"], bounds="5 half-spaces: any coefficients, or three axis-parallel ones meeting in a vertex and two arbitrary ones", stubs=STUB, time=100)
def feasible(h):
    """The point found is strictly inside all half-spaces; a solution clearly inside is returned, no solution gives None."""
    from xrd_simulator import beam

    h.patch(beam, "ConvexHull", lambda *a, **k: _Hull(h, a[0], [[1.0, 0, 0, -1]]))
    b = make(h, [[7.0, 0.0, 0.0], [1.0, 2.0, 3.0]])
    kind = h.case("solution", ["none", "interior", "vertex"])
    x = [h.real("x%d" % i, -50, 50) for i in range(3)]
    if kind == "vertex":
        eq = [a + [-h.dot(a, x)] for a in AXES] + halfspaces(h, "e", 2)
    else:
        eq = halfspaces(h, "e", 5)
    seen = []
    h.patch(beam, "linprog", linear_program(h, None if kind == "none" else x, kind, seen))
    got = b._find_feasible_point(array(h, eq))
    if kind == "none":
        h.check(got is None, "no solution")
        return
    if got is not None:
        p = h.vals(got)
        for i, e in enumerate(eq):
            h.check(h.lt(h.dot(e[:3], p) + e[3], 0, exact=True), "strictly inside half-space %d" % i)
    elif kind == "interior":
        h.check(h.or_(*[h.gt(h.dot(e[:3], x) + e[3], -1e-7) for e in eq]), "interior solution dropped")
    else:
        p = [x[i] - 1e-5 * AXES[i][i] for i in range(3)]
        h.check(h.or_(*[h.gt(h.dot(e[:3], p) + e[3], -1e-7) for e in eq]), "solution next to the vertex dropped")


class _Hull:
    def __init__(self, h, points, equations):
        import numpy as np

        self.points, self.vertices = points, np.arange(len(rows(h, points)))
        self.simplices = np.array([[0, 1, 2]])
        self.equations = array(h, equations)
        self.volume = 1.0


@harness("P20", functions=FN, bounds="any tetrahedron with three edges along the axes (any corner and edge lengths), any 2 half-spaces of the beam", stubs=STUB, time=200, max_paths=600)
def intersect(h):
    """The element's hull, None, or the hull of both half-space sets from a point strictly inside both."""
    from xrd_simulator import beam

    p = [h.real("corner%d" % i, -20, 20) for i in range(3)]
    a = [h.real("edge%d" % i, 0.1, 30) for i in range(3)]
    vert = [p] + [[p[j] + (a[j] if i == j else 0) for j in range(3)] for i in range(3)]
    element = [[-1.0, 0.0, 0.0, p[0]], [0.0, -1.0, 0.0, p[1]], [0.0, 0.0, -1.0, p[2]]]
    element.append([1 / x for x in a] + [-1 - sum(p[i] / a[i] for i in range(3))])
    eq = halfspaces(h, "e", 2)
    hulls, spaces = [], []

    def hull(points, *r, **k):
        first = rows(h, points)[0][0]
        if h.decide(h.eq(first, 1000.0)):
            out = _Hull(h, points, eq)
        elif h.decide(h.eq(first, 2000.0)):
            out = _Hull(h, points, eq)
            out.of = "intersection"
            hulls.append(out)
        else:
            out = _Hull(h, points, element)
            out.of = "element"
            hulls.append(out)
        return out

    class Space:
        def __init__(self, halfspaces, interior, *r, **k):
            spaces.append((halfspaces, interior))
            self.intersections = array(h, [[2000.0, 0.0, 0.0], [1.0, 2.0, 3.0]])

    x = [h.real("x%d" % i, -60, 60) for i in range(3)]
    seen = []
    h.patch(beam, "ConvexHull", hull)
    h.patch(beam, "HalfspaceIntersection", Space)
    found = h.flag("feasible")
    h.patch(beam, "linprog", linear_program(h, x if found else None, "interior", seen))
    b = make(h, [[1000.0, 0.0, 0.0], [1.0, 2.0, 3.0]])
    got = b._intersect(h.tensor_of(vert))

    def value(e, q):
        return h.dot(e[:3], q) + e[3]

    inside = h.and_(*[h.lt(value(e, v), 0) for e in eq for v in vert])
    if got is None:
        h.check(len(seen) > 0 and (not found), "None although a common point exists") if not found else h.check(h.or_(*[h.gt(value(e, x), -1e-7) for e in eq + element]), "None although a common point was found")
        h.check(h.not_(inside), "None for a contained element")
    elif got.of == "element":
        h.check(inside, "only an element inside the beam is returned as it is")
        h.check_eq(got.points, vert, "hull of the element")
    else:
        h.check(len(spaces) == 1, "one intersection")
        used = rows(h, spaces[0][0])
        q = h.vals(spaces[0][1])
        for i, e in enumerate(eq + element):
            h.check(h.or_(*[h.and_(*[h.le(h.abs(u[k] - e[k]), 2e-6, exact=True) for k in range(4)]) for u in used]), "half-space %d used" % i)
            h.check(h.lt(value(e, q), 0, exact=True), "interior point inside half-space %d" % i)
        h.check(len(used) == 6, "no other half-space")
