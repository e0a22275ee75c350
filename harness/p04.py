from engine.harness import harness

from harness.p03 import FN, KNOWN, rhos, solve


@harness("P04", functions=FN, bounds="1 element, 1 plane; rho_0, rho_1 in [-10,10], any solution time in [0,1], angle in (0.01,3.14)", time=600, replay_time=60)
def complete(h):
    """A time in [0,1] that solves the equation is reported (tau = tan of the half angle at the solution)."""
    r0 = h.real("r0", -10, 10)
    r1 = h.real("r1", -10, 10)
    w = h.real("w", 0.01, 3.14)
    tau = h.real("tau", 0, 1300, gen=lambda r: r.random() * 0.3)
    t = 2 * h.atan(tau) / w
    h.assume(h.le(t, 1))
    h.assume(h.not_(h.and_(h.eq(r0, 0), h.eq(r1, 0))))  # identically zero: every time is a solution
    if h.flag("linear"):
        # the denominator rho_2 - rho_0 vanishes exactly when rho_0 = -rho_1 tau
        r0 = -(r1 * tau)
        h.assume(h.ne(r1, 0))
    else:
        h.assume(h.ne(r0 + r1 * tau, 0))
    q = 1 + tau * tau
    r2 = -(r0 * (1 - tau * tau) + 2 * r1 * tau) / q
    # G = (1,0,0): rho_i = first component of factor i (+ 1/2 for rho_2)
    G = h.tensor_of([[[1.0], [0.0], [0.0]]])
    f0 = h.tensor_of([r0, 0.3, -0.7])
    f1 = h.tensor_of([r1, 0.1, 0.2])
    f2 = h.tensor_of([r2 - 0.5, 0.4, 0.9])
    grains, planes, times, Gs = solve(h, G, f0, f1, f2, h.tensor_of([w])[0])
    n = times.shape[0]
    h.check(h.or_(*[h.eq(h.val(times[i]), t) for i in range(n)], False), "solution reported")


@harness("P04", functions=FN, bounds="2 elements x 3 planes: one entry with a symbolic solution, the others with none", time=600, replay_time=60)
def own_entry(h):
    """The solution of any one element and plane among several is reported for that element and plane."""
    import torch

    pos = h.case("pos", range(6))
    r0 = h.real("r0", -10, 10)
    r1 = h.real("r1", -10, 10)
    w = h.real("w", 0.01, 3.14)
    tau = h.real("tau", 0, 1300, gen=lambda r: r.random() * 0.3)
    t = 2 * h.atan(tau) / w
    h.assume(h.le(t, 1))
    h.assume(h.ne(r0 + r1 * tau, 0))
    r2 = -(r0 * (1 - tau * tau) + 2 * r1 * tau) / (1 + tau * tau)
    sol, no = h.tensor_of([1.0, 0.0, 0.0]), h.tensor_of([0.0, 0.0, 2.0])
    cols = [sol if i == pos else no for i in range(6)]
    G = torch.stack([torch.stack(cols[:3], dim=1), torch.stack(cols[3:], dim=1)])
    f = [h.tensor_of([[r0, 0.0, 0.0]]), h.tensor_of([[r1, 0.0, 0.0]]), h.tensor_of([[r2 - 0.5, 0.0, 0.0]])]
    grains, planes, times, Gs = solve(h, G, f[0][0], f[1][0], f[2][0], h.tensor_of([w])[0])
    n = times.shape[0]
    for i in range(n):
        h.check(int(grains[i]) * 3 + int(planes[i]) == pos, "only that element and plane")
        h.check_eq(Gs[i], [1.0, 0.0, 0.0], "its vector")
    h.check(h.or_(*[h.eq(h.val(times[i]), t) for i in range(n)], False), "solution reported")
