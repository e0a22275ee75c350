from engine.harness import harness

FN = ["utils._clip_line_with_convex_polyhedron"]


def length(h, faces, x, d):
    """Length of the intersection of the line x + s d with the half-spaces n.(y - p) <= 0.

    None if the polyhedron is not bounded along the direction.
    """
    ins, outs, dead = [], [], False
    for n, p in faces:
        a = h.dot(n, d)
        b = h.dot(n, [p[i] - x[i] for i in range(3)])  # a s <= b
        if h.decide(h.gt(a, 0, exact=True)):
            outs.append((a, b))
        elif h.decide(h.lt(a, 0, exact=True)):
            ins.append((a, b))
        elif h.decide(h.lt(b, 0, exact=True)):
            dead = True
    if not ins or not outs:
        return None
    gap = h.min(*[b / a for a, b in outs]) - h.max(*[b / a for a, b in ins])
    if dead or h.decide(h.le(gap, 0, exact=True)):
        return 0
    h.assume(h.gt(gap, 1e-12, exact=True))  # less counts as touching
    return gap


@harness("P18", functions=FN, bounds="3 (thorough: 4) faces with arbitrary normals and points in [-10,10]^3, 1 line in any direction", time=300, fork_where=True, fork_max=True, branch_ms=50, max_paths=3000, weight=3)
def planes(h):
    """Any half-spaces and any line."""
    m = 3 if h.tier == "quick" else 4
    n = h.reals("n", (m, 3), -10, 10)
    p = h.reals("p", (m, 3), -10, 10)
    x = h.reals("x", (1, 3), -20, 20)
    d = h.unit("d")
    from xrd_simulator.utils import _clip_line_with_convex_polyhedron as clip

    ns, ps, xs, ds = h.vals(n), h.vals(p), h.vals(x), h.vals(d)
    want = length(h, list(zip(ns, ps)), xs[0], ds)
    if want is None:
        return
    got = clip(x, d, p, n)
    h.check(tuple(got.shape) == (1,), "one length per line")
    h.check_eq(got[0], want, "length")


@harness("P18", functions=FN, bounds="unit cube, 2 lines through any points of [-3,3]^3, in any direction and along its axes and face diagonals", time=300, max_paths=6000, weight=2)
def cube(h):
    """A bundle of lines through a cube, including lines parallel to faces: every line has its own length."""
    from xrd_simulator.utils import _clip_line_with_convex_polyhedron as clip

    kind = h.case("direction", ["x", "-y", "z", "diagonal", "any"])
    if kind == "any":
        d = h.unit_scalars("d", 3)
        for v in d:
            h.assume(h.ne(v, 0))
        nl = 1
    else:
        d = {"x": [1.0, 0.0, 0.0], "-y": [0.0, -1.0, 0.0], "z": [0.0, 0.0, 1.0], "diagonal": [0.6, 0.8, 0.0]}[kind]
        nl = 2
    x = h.reals("x", (nl, 3), -3, 3)
    faces = []
    for a in range(3):
        for s in (1.0, -1.0):
            n = [0.0] * 3
            n[a] = s
            faces.append((n, [1.0] * 3 if s > 0 else [0.0] * 3))
    xs = h.vals(x)
    got = clip(x, h.tensor_of(d), h.tensor_of([p for _, p in faces]), h.tensor_of([n for n, _ in faces]))
    h.check(tuple(got.shape) == (nl,), "one length per line")
    for i in range(nl):
        h.check_eq(got[i], length(h, faces, xs[i], d), "length")
    h.check_eq(x, xs, "input modified")


@harness("P18", functions=FN, bounds="tetrahedron with vertices 0, a e1, b e2, c e3; 1 line not parallel to a face", time=300, fork_max=True, fork_where=True, branch_ms=50, max_paths=6000)
def chord(h):
    """A line through an interior point leaves at both reported ends: the chord joins two boundary points."""
    from xrd_simulator.utils import _clip_line_with_convex_polyhedron as clip

    a, b, c = (h.real(n, 0.5, 10) for n in "abc")
    w = [h.real("w%d" % i, 0.01, 1) for i in range(3)]
    h.assume(h.lt(w[0] + w[1] + w[2], 0.99))
    q = [w[0] * a, w[1] * b, w[2] * c]  # interior point
    d = h.unit_scalars("d", 3)
    back = h.real("back", -50, 50)
    x = [q[i] - back * d[i] for i in range(3)]
    n = [[-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0], [1 / a, 1 / b, 1 / c]]
    p = [[0.0, b, 0.0], [0.0, 0.0, c], [a, 0.0, 0.0], [0.0, 0.0, c]]
    # the chord through q: distance to the boundary forwards plus backwards
    fw, bw = [], []
    for nn, pp in zip(n, p):
        s = h.dot(nn, d)
        h.assume(h.ne(s, 0))
        r = h.dot(nn, [pp[i] - q[i] for i in range(3)])
        if h.decide(h.gt(s, 0)):
            fw.append(r / s)
        else:
            bw.append(-r / s)
    if not fw or not bw:
        return
    want = h.min(*fw) + h.min(*bw)
    h.assume(h.gt(want, 1e-9, exact=True))
    got = h.val(clip(h.tensor_of([x]), h.tensor_of(d), h.tensor_of(p), h.tensor_of(n))[0])
    h.check(h.eq(got, want), "chord length")
