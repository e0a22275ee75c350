import itertools

from engine.harness import harness

FN = ["mesh.TetraMesh._compute_mesh_spheres", "utils._compute_sides", "utils._circumsphere_of_segments", "utils._circumsphere_of_triangles", "utils._circumsphere_of_tetrahedrons"]
def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def d2(h, a, b):
    v = sub(a, b)
    return h.dot(v, v)


def assume_shape(h, L, A, B, C, D):
    """AB is the longest edge and C farther from its middle as D."""
    m = [x / 2 + y / 2 for x, y in zip(A, B)]
    for p in (C, D):
        for q in (A, B):
            h.assume(h.lt(d2(h, p, q), L * L, exact=True))
    h.assume(h.lt(d2(h, C, D), L * L, exact=True))
    h.assume(h.gt(d2(h, C, m), d2(h, D, m), exact=True))


def spheres(h, elements):
    import torch
    from xrd_simulator.mesh import TetraMesh

    coord = h.tensor_of([v for e in elements for v in e])
    enod = torch.arange(4 * len(elements)).reshape(-1, 4)
    r, c = TetraMesh()._compute_mesh_spheres(coord, enod)
    return h.vals(r), h.vals(c)


def judge(h, r, c, A, B, C, D, L):
    """The reported sphere contains the element and is the one the rule asks for, up to 0.02 percent."""
    ra = lambda q: h.and_(h.ge(r * r, q, exact=True), h.le(r * r, q * 1.0002**2 * (1 + 1e-9), exact=True))
    same = lambda q: h.and_(*[h.eq(x, y) for x, y in zip(c, q)])
    eps = 1 + 1e-9
    for v in (A, B, C, D):
        h.check(h.le(d2(h, v, c), r * r * eps, exact=True), "contains its vertices")
    h.check(h.ge(r, 0), "radius")
    m = [x / 2 + y / 2 for x, y in zip(A, B)]
    q1 = L * L / 4
    in1 = h.and_(h.le(d2(h, C, m), q1, exact=True), h.le(d2(h, D, m), q1, exact=True))
    O = [A[i] for i in range(3)]
    c1, c2 = C[0] - O[0], C[1] - O[1]
    y0 = (c1 * c1 + c2 * c2 - L * c1) / (2 * c2)
    p2 = [O[0] + L / 2, O[1] + y0, O[2]]
    q2 = L * L / 4 + y0 * y0
    in2 = h.le(d2(h, D, p2), q2, exact=True)
    e1, e2, e3 = D[0] - O[0], D[1] - O[1], D[2] - O[2]
    z0 = (e1 * e1 + e2 * e2 + e3 * e3 - L * e1 - 2 * y0 * e2) / (2 * e3)
    p3 = [p2[0], p2[1], p2[2] + z0]
    q3 = q2 + z0 * z0
    if h.concrete:
        one, two, three = same(m), same(p2), same(p3)
        if in1 and h.gt(q1, max(d2(h, C, m), d2(h, D, m)) * 1.001):
            h.check(one, "smallest sphere")
        elif not in1 and h.lt(q1 * 1.001, max(d2(h, C, m), d2(h, D, m))):
            if h.lt(d2(h, D, p2) * 1.001, q2):
                h.check(two, "smallest sphere")
            elif h.gt(d2(h, D, p2), q2 * 1.001):
                h.check(three, "smallest sphere")
        return
    if h.decide(same(m)):
        h.check(ra(q1), "radius of the segment's sphere")
    elif h.decide(same(p2)):
        h.check(h.not_(in1), "segment's sphere does not do")
        h.check(ra(q2), "radius of the triangle's sphere")
    else:
        h.check(same(p3), "centre is one of the three")
        h.check(h.not_(in1), "segment's sphere does not do")
        h.check(h.not_(in2), "triangle's sphere does not do")
        h.check(ra(q3), "radius of the tetrahedron's sphere")


ORDERS = [(0, 1, 2, 3), (0, 1, 3, 2), (2, 0, 1, 3), (2, 3, 0, 1), (3, 1, 2, 0), (1, 3, 0, 2)]


# longest edge and third vertex of triangles with integer sides and a dyadic circumcentre: acute (two), obtuse, right-angled
# (moved along x so that the distances to the origin are integers as well)
TRIANGLES = [(6.0, [3.0, 4.0, 0.0], -3.0), (75.0, [33.0, 56.0, 0.0], -33.0), (24.0, [12.0, 9.0, 0.0], -12.0), (50.0, [18.0, 24.0, 0.0], -36.0)]


@harness("P22", functions=FN, bounds="1 element: 4 shapes of its largest triangle (acute, obtuse, right-angled) and any fourth vertex (with an element height of 1 percent or more), six node orders", time=500, fork_where=True, fork_max=True, branch_ms=2000, max_paths=600, timeout_ms=20000)
def fourth(h):
    """Any fourth vertex: solved by the segment, by the triangle and by the tetrahedron."""
    order = h.case("order", ORDERS)
    L, C, t = h.case("triangle", TRIANGLES)
    D = [L * h.real("d1", 0, 1), L * h.real("d2", -1, 1), L * h.real("d3", 0.01, 1)]
    v = [[q[0] + t, q[1], q[2]] for q in ([0, 0, 0], [L, 0, 0], C, D)]
    assume_shape(h, L, *v)
    r, c = spheres(h, [[v[i] for i in order]])
    h.check(len(r) == 1, "one sphere")
    judge(h, r[0], c[0], *v, L)


@harness("P22", functions=FN, bounds="1 element with longest edge 8 along z, fixed fourth vertex and any third vertex in the xz plane, three node orders", time=500, fork_where=True, fork_max=True, branch_ms=2000, max_paths=600, timeout_ms=20000)
def third(h):
    """Any third vertex (acute, right-angled and obtuse triangles)."""
    order = h.case("order", ORDERS[::2])
    L = 8.0
    C = [L * h.real("c1", 0, 1), L * h.real("c2", 0.01, 1), 0.0]
    D = h.case("fourth", [[4.0, 0.0, 3.0], [3.0, 0.0, 4.0], [4.0, 4.0, -3.0]])
    v = [[q[0] - 4.0, q[1], q[2]] for q in ([0, 0, 0], [L, 0, 0], C, D)]
    assume_shape(h, L, *v)
    turned = [[q[1], q[2], q[0]] for q in v]
    r, c = spheres(h, [[turned[i] for i in order]])
    judge(h, r[0], [c[0][2], c[0][0], c[0][1]], *v, L)


OTHER = [[[0.0, 0.0, 0.0], [6.0, 0.0, 0.0], [3.0, 4.0, 0.0], [3.0, 0.875, 4.0]], [[5.0, 5.0, 5.0], [9.0, 5.0, 5.0], [7.0, 5.5, 5.0], [7.0, 5.0, 5.5]]]


@harness("P22", functions=FN, bounds="3 elements, one of which (any position) has an arbitrary fourth vertex, two shapes of its largest triangle", time=500, fork_where=True, fork_max=True, branch_ms=2000, max_paths=600, timeout_ms=20000)
def several(h):
    """Spheres of different elements do not influence each other."""
    k = h.case("position", [0, 1, 2])
    L, C, t = h.case("triangle", [TRIANGLES[0], TRIANGLES[2]])
    D = [L * h.real("d1", 0, 1), L * h.real("d2", -1, 1), L * h.real("d3", 0.01, 1)]
    v = [[q[0] + t, q[1], q[2]] for q in ([0, 0, 0], [L, 0, 0], C, D)]
    assume_shape(h, L, *v)
    e = list(OTHER)
    e.insert(k, [v[2], v[0], v[3], v[1]])
    r, c = spheres(h, e)
    h.check(len(r) == 3 and len(c) == 3, "one sphere per element")
    judge(h, r[k], c[k], *v, L)
    want = [([3.0, 0.875, 0.779296875], 9.765625 + 0.779296875**2), ([7.0, 5.0, 5.0], 4.0)]
    for i, (p, q) in zip([j for j in range(3) if j != k], want):
        for x, y in zip(c[i], p):
            h.check(h.le(h.abs(x - y), 1e-9, exact=True), "other centre")
        h.check(h.le(h.abs(r[i] * r[i] - q), 5e-4 * q, exact=True), "other radius")
