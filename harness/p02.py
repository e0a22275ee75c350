from engine.harness import harness

from harness.p01 import motion

FN = ["motion.RigidBodyMotion.rotate", "motion.RigidBodyMotion.translate", "motion.RigidBodyMotion.inverse", "motion._RodriguezRotator"]
B = "any unit axis, angle in (0.01, 3.14), coordinates in [-1000,1000], times in [0,1]"


def rot(h, axis, angle, v):
    return h.rodrigues(h.vals(axis), angle, v)


@harness("P02", functions=FN, bounds=B + "; one vector, 1 and 2 rows, shared and own times")
def rotate(h):
    """rotate(v,t) = R(axis, t*angle) v, whatever origin and translation."""
    m, axis, angle, tr, org = motion(h)
    kind = h.case("kind", ["one", "row", "rows shared", "rows own"])
    if kind == "one":
        v = h.reals("v", 3, -1000, 1000)
        t = h.real("t", 0, 1)
        v0 = h.vals(v)
        w = rot(h, axis, angle * t, v0)
    else:
        n = 1 if kind == "row" else 2
        v = h.reals("v", (n, 3), -1000, 1000)
        v0 = h.vals(v)
        if kind == "rows own":
            t = h.reals("t", n, 0, 1)
            ts = h.vals(t)
        else:
            t = h.real("t", 0, 1)
            ts = [t] * n
        w = [rot(h, axis, angle * ts[i], v0[i]) for i in range(n)]
    y = m.rotate(v, t)
    h.check_eq(y, w, "rotated")
    h.check_eq(v, v0, "input modified")


@harness("P02", functions=FN, bounds=B + "; two vectors")
def isometry(h):
    """Lengths and angles between vectors are preserved."""
    m, axis, angle, tr, org = motion(h)
    v = h.reals("v", (2, 3), -10, 10)
    t = h.real("t", 0, 1)
    y = h.vals(m.rotate(v, t))
    v = h.vals(v)
    for i, j in ((0, 0), (0, 1), (1, 1)):
        h.check_eq(h.dot(y[i], y[j]), h.dot(v[i], v[j]), "inner product")


@harness("P02", functions=FN, bounds=B + "; rotation matrix for a scalar and two angles")
def rotation_matrix(h):
    """The rotator's matrices are the rotations applied to vectors, in order."""
    m, axis, angle, tr, org = motion(h)
    batch = h.flag("batch")
    a = h.vals(axis)
    e = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]

    def mat(w):
        cols = [h.rodrigues(a, w, c) for c in e]
        return [[cols[j][i] for j in range(3)] for i in range(3)]

    if batch:
        w = h.reals("w", 2, -7, 7)
        h.check_eq(m.rotator.get_rotation_matrix(w), [mat(x) for x in h.vals(w)], "matrices")
    else:
        w = h.reals("w", 1, -7, 7)[0]
        h.check_eq(m.rotator.get_rotation_matrix(w), mat(h.vals(w)), "matrix")


@harness("P02", functions=FN, bounds=B + "; one vector, 1, 2 and 3 rows; time in [-1,2]")
def translate(h):
    """translate adds t*translation to every vector and refuses times outside [0,1]."""
    m, axis, angle, tr, org = motion(h)
    n = h.case("n", [0, 1, 2, 3])
    v = h.reals("v", (n, 3) if n else 3, -1000, 1000)
    t = h.real("t", -1, 2)
    v0, d = h.vals(v), h.vals(tr)
    if h.decide(h.and_(h.ge(t, 0), h.le(t, 1))):
        y = m.translate(v, t)
        f = lambda r: [r[i] + t * d[i] for i in range(3)]
        h.check_eq(y, [f(r) for r in v0] if n else f(v0), "translated")
        h.check_eq(v, v0, "input modified")
        h.check_eq(m.translation, d, "translation of the motion modified")
    else:
        h.check_raises(AssertionError, lambda: m.translate(v, t), "time outside [0,1] refused")


@harness("P02", functions=FN, bounds=B + "; two vectors")
def inverse(h):
    """The inverse has the negated axis and translation; rotating there and back is the identity."""
    m, axis, angle, tr, org = motion(h)
    a0, t0, o0 = h.vals(axis), h.vals(tr), h.vals(org)
    inv = m.inverse()
    h.check_eq(inv.rotation_axis, [-x for x in a0], "axis")
    h.check_eq(inv.translation, [-x for x in t0], "translation")
    h.check_eq(inv.origin, o0, "origin")
    h.check_eq(inv.rotation_angle, angle, "angle")
    v = h.reals("v", (2, 3), -10, 10)
    t = h.real("t", 0, 1)
    y = inv.rotate(m.rotate(v, t), t)
    h.check_eq(y, h.vals(v), "there and back")
    h.check_eq(inv.rotate(v, t), [rot(h, axis, -(angle * t), r) for r in h.vals(v)], "inverse rotation")
    h.check_eq(m.rotation_axis, a0, "axis of the original")
    h.check_eq(m.translation, t0, "translation of the original")
    h.check_eq(m.origin, o0, "origin of the original")
    h.check_eq(m.rotate(v, t), [rot(h, axis, angle * t, r) for r in h.vals(v)], "original still rotates forward")
    w = inv.inverse()
    h.check_eq(w.rotation_axis, a0, "inverse of the inverse")
    h.check_eq(w.translation, t0, "inverse of the inverse")


@harness("P02", functions=FN, bounds="angle in [-1,4], axis length in [0.5,2]")
def refused(h):
    """Motions with an angle outside (0,pi) or a non-unit axis are refused."""
    from xrd_simulator.motion import RigidBodyMotion

    what = h.case("what", ["angle", "axis"])
    tr = h.reals("tr", 3, -10, 10)
    if what == "angle":
        axis = h.unit("axis")
        angle = h.real("angle", -1, 4)
        if h.decide(h.and_(h.gt(angle, 0), h.lt(angle, h.pi))):
            RigidBodyMotion(axis, angle, tr)
            h.check(True, "accepted")
        else:
            h.check_raises(AssertionError, lambda: RigidBodyMotion(axis, angle, tr), "angle refused")
    else:
        axis = h.reals("axis", 3, -2, 2)
        a = h.vals(axis)
        h.assume(h.or_(h.gt(h.dot(a, a), 1.01), h.lt(h.dot(a, a), 0.99)))
        h.check_raises(AssertionError, lambda: RigidBodyMotion(axis, 0.5, tr), "axis refused")
