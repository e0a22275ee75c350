from engine.harness import harness

FN = ["laue._find_solutions_to_tangens_half_angle_equation"]
STUB = "none"


def solve(h, G, f0, f1, f2, w):
    from xrd_simulator import laue

    return laue._find_solutions_to_tangens_half_angle_equation(G, f0, f1, f2, w)


def rhos(h, G, f0, f1, f2, e, p):
    g = [G[e][c][p] for c in range(3)]
    return h.dot(f0, g), h.dot(f1, g), h.dot(f2, g) + h.dot(g, g) / 2, g


@harness("P03", functions=FN, bounds="1 element, 1 plane; factors and G in [-10,10], angle in (0.01,3.14)", time=400, replay_time=60)
def root(h):
    """Every reported time is in [0,1] and solves the equation for the reported vector."""
    G = h.reals("G", (1, 3, 1), -10, 10)
    f0, f1, f2 = (h.reals(n, 3, -10, 10) for n in ("f0", "f1", "f2"))
    w = h.real("w", 0.01, 3.14)
    g0 = h.vals(G)
    grains, planes, times, Gs = solve(h, G, f0, f1, f2, h.tensor_of([w])[0])
    n = times.shape[0]
    h.check(n <= 2, "at most two solutions")
    h.check(tuple(grains.shape) == (n,) and tuple(planes.shape) == (n,) and tuple(Gs.shape) == (n, 3), "shapes")
    r0, r1, r2, g = rhos(h, g0, h.vals(f0), h.vals(f1), h.vals(f2), 0, 0)
    h.check_eq(G, g0, "input modified")
    for i in range(n):
        t = h.val(times[i])
        h.check(h.isfinite(t), "finite time")
        h.check(h.between(0, t, 1), "time in [0,1]")
        u = w * t
        h.check(h.eq(r0 * h.cos(u) + r1 * h.sin(u) + r2, 0), "root")
        h.check(h.val(grains[i]) == 0 if h.concrete else h.eq(h.val(grains[i]), 0), "element")
        h.check_eq(Gs[i], g, "own vector")


# three entries with known solutions (f0 = (1,0,0), f1 = (0,1,0), f2 = 0): rho_2 = |G|^2/2
KNOWN = {
    "two": [-0.75, -1.3, 0.0],
    "none": [0.1, 0.2, 3.0],
    "one": [1.0, -1.2, 0.0],
}


@harness("P03", functions=FN, bounds="2 elements x 2 planes: one entry symbolic in [-5,5]^3, the others with two, one and no solutions", time=400, replay_time=60)
def own_entry(h):
    """With several elements and planes every report is a root for its own element and plane."""
    pos = h.case("pos", [0, 1, 2, 3])
    rest = ["two", "none", "one"]
    rest.insert(pos, None)
    g = h.reals("g", 3, -5, 5)
    w = 2.0
    cols = [h.tensor_of(KNOWN[r]) if r else g for r in rest]
    import torch

    G = torch.stack([torch.stack(cols[:2], dim=1), torch.stack(cols[2:], dim=1)])
    f0, f1, f2 = h.tensor_of([1.0, 0.0, 0.0]), h.tensor_of([0.0, 1.0, 0.0]), h.tensor_of([0.0, 0.0, 0.0])
    grains, planes, times, Gs = solve(h, G, f0, f1, f2, h.tensor_of([w])[0])
    n = times.shape[0]
    Gv = h.vals(G)
    count = {}
    for i in range(n):
        e, p = int(grains[i]), int(planes[i])
        count[2 * e + p] = count.get(2 * e + p, 0) + 1
        t = h.val(times[i])
        h.check(h.isfinite(t), "finite time")
        h.check(h.between(0, t, 1), "time in [0,1]")
        r0, r1, r2, gv = rhos(h, Gv, [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.0], e, p)
        f = r0 * h.cos(w * t) + r1 * h.sin(w * t) + r2
        h.check(h.eq(f, 0) if 2 * e + p == pos else h.lt(h.abs(f), 1e-9, exact=True), "root")
        h.check_eq(Gs[i], gv, "own vector")
    for k, r in enumerate(rest):
        if r == "two":
            h.check(count.get(k, 0) == 2, "both solutions reported")
        if r == "one":
            h.check(count.get(k, 0) == 1, "the one solution reported")
        if r == "none":
            h.check(count.get(k, 0) == 0, "no solution invented")
