from engine.harness import harness

FN = ["motion.RigidBodyMotion.__init__", "motion.RigidBodyMotion.__call__", "utils._RodriguezRotator"]
B = "angle in [-pi, pi], any axis (unit or not), coordinates in [-1000,1000], times in [0,1]"


def motion(h, unit=True):
    from xrd_simulator.motion import RigidBodyMotion

    if unit:
        axis = h.unit("axis")
    else:
        axis = h.reals("ax", 3, -5, 5)
        a = h.vals(axis)
        h.assume(h.gt(h.dot(a, a), 0.01))
    angle = h.real("angle", 0.01, 3.14)
    tr = h.reals("tr", 3, -1000, 1000)
    org = h.reals("org", 3, -1000, 1000)
    m = RigidBodyMotion(axis, angle, tr, org)
    return m, axis, angle, tr, org


def want(h, axis, angle, tr, org, x, t):
    a = h.vals(axis)
    n = h.norm(a)
    a = [v / n for v in a]
    tr, org = h.vals(tr), h.vals(org)
    c = [x[i] - org[i] for i in range(3)]
    r = h.rodrigues(a, angle * t, c)
    return [r[i] + org[i] + t * tr[i] for i in range(3)]


def unchanged(h, m, before, parts):
    for name, p in parts:
        h.check_eq(p, before[name], "input %s modified" % name)


@harness("P01", functions=FN, bounds=B + "; one point")
def single_point(h):
    """One point, one time: R(x-o)+o+t*tr."""
    m, axis, angle, tr, org = motion(h)
    x = h.reals("x", 3, -1000, 1000)
    t = h.real("t", 0, 1)
    x0 = x.clone()
    y = m(x, t)
    h.check_eq(y, want(h, axis, angle, tr, org, h.vals(x0), t), "value")
    h.check_eq(x, x0, "input points modified")


@harness("P01", functions=FN, bounds=B + "; 3 points")
def points_times(h):
    """(N,3) points with one time per point."""
    m, axis, angle, tr, org = motion(h)
    n = h.case("n", [1, 3])
    x = h.reals("x", (n, 3), -1000, 1000)
    t = h.reals("t", n, 0, 1)
    x0, t0 = x.clone(), t.clone()
    y = m(x, t)
    xs, ts = h.vals(x0), h.vals(t0)
    h.check_eq(y, [want(h, axis, angle, tr, org, xs[i], ts[i]) for i in range(n)], "value")
    h.check_eq(x, x0, "input points modified")
    h.check_eq(t, t0, "input times modified")


@harness("P01", functions=FN, bounds=B + "; 2 points")
def points_shared_time(h):
    """(N,3) points with one shared time."""
    m, axis, angle, tr, org = motion(h)
    n = h.case("n", [1, 2])
    x = h.reals("x", (n, 3), -1000, 1000)
    t = h.real("t", 0, 1)
    kind = h.case("kind", ["float", "tensor0"])
    y = m(x, t if kind == "float" else h.tensor_of([t]).reshape(()))
    xs = h.vals(x)
    h.check_eq(y, [want(h, axis, angle, tr, org, xs[i], t) for i in range(n)], "value")
    h.check_eq(x, xs, "input points modified")


@harness("P01", functions=FN, bounds=B + "; 2 groups of 4 vertices", time=200)
def vertex_groups(h):
    """(N,4,3) vertex groups with one time per group or one shared time."""
    m, axis, angle, tr, org = motion(h)
    n = h.case("n", [2, 1])
    x = h.reals("x", (n, 4, 3), -1000, 1000)
    kind = h.case("kind", ["per group", "shared"])
    if kind == "shared":
        t = h.real("t", 0, 1)
        ts = [t] * n
    else:
        t = h.reals("t", n, 0, 1)
        ts = h.vals(t)
    y = m(x, t)
    xs = h.vals(x)
    h.check_eq(y, [[want(h, axis, angle, tr, org, xs[i][j], ts[i]) for j in range(4)] for i in range(n)], "value")
    h.check_eq(x, xs, "input points modified")


@harness("P01", functions=FN, bounds="axis given as list/array, integer axis; angle in (0,pi)")
def default_origin(h):
    """The origin defaults to (0,0,0) and numpy input is accepted; later motions are not influenced."""
    import numpy as np
    from xrd_simulator.motion import RigidBodyMotion

    tr = h.reals("tr", 3, -1000, 1000)
    x = h.reals("x", (2, 3), -1000, 1000)
    t = h.real("t", 0, 1)
    a = h.real("angle", 0.01, 3.14)
    other = RigidBodyMotion(np.array([0.0, 0.0, 1.0]), 0.3, np.array([1.0, 2.0, 3.0]), np.array([5.0, 6.0, 7.0]))
    m = RigidBodyMotion(np.array([0.0, 1.0, 0.0]), a, tr)
    other(x, t)
    y = m(x, t)
    y2 = m(x, t)
    xs = h.vals(x)
    z = h.tensor_of([0.0, 0.0, 0.0])
    w = [want(h, h.tensor_of([0.0, 1.0, 0.0]), a, tr, z, xs[i], t) for i in range(2)]
    h.check_eq(y, w, "value")
    h.check_eq(y2, w, "second call")
