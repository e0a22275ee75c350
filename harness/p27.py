from engine.harness import harness

FN = ["scattering_factors._lorentz", "scattering_factors._polarization", "scattering_factors._scherrer"]


def expect_lorentz(h, got, c, s, e):
    """c, s: cosine and sine of 2theta, e: cosine of eta."""
    import math

    # the engine compares arc cosines at 13 digits
    lim = round(math.cos(math.radians(0.5)), 13)
    # eta within 0.5 degrees of 0 or 180 (strictly), or theta < 0.5 degrees
    inf = h.or_(h.gt(e, lim), h.lt(e, -lim), h.gt(c, round(math.cos(math.radians(1.0)), 13)))
    if h.decide(inf):
        h.check(h.isinf(got), "infinite inside the cones")
    else:
        h.check(h.isfinite(got), "finite outside the cones")
        if h.isfinite(got):
            g = h.val(got)
            h.check(h.gt(g, 0), "positive")
            h.check(h.eq(g * g * s * s * (1 - e * e), 1), "value")


@harness("P27", functions=["scattering_factors._lorentz"], bounds="1 reflection, any incident direction, unit rotation axis and scattered direction except 2theta = 0, 180; |k| in [0.5, 60]", time=300)
def lorentz(h):
    """1/(sin 2theta |sin eta|), infinite exactly inside the half-degree cones."""
    from xrd_simulator.scattering_factors import _lorentz

    k = h.real("k", 0.5, 60)
    # any incident direction and axis, written in a frame R whose first column is the incident direction
    R = h.vals(h.rotmat("R"))
    av = h.unit_scalars("a", 3)
    c, s = h.unit_scalars("two_theta", 2)
    h.assume(h.gt(s, 0))
    k_in = h.tensor_of([k * R[i][0] for i in range(3)])
    axis = h.tensor_of([h.dot(R[i], av) for i in range(3)])
    k_out = h.tensor_of([k * (c * R[i][0] + s * R[i][1]) for i in range(3)])
    if h.flag("row"):
        k_out = k_out.reshape(1, 3)
    L = _lorentz(k_in, k_out, axis)
    h.check(L.numel() == 1, "one value")
    expect_lorentz(h, L.reshape(-1)[0], c, s, av[1])


@harness("P27", functions=["scattering_factors._lorentz"], bounds="3 reflections, one of them any, incident +x, axis z", time=200)
def lorentz_rows(h):
    """Each reflection gets its own value whatever the others are."""
    import math
    import torch
    from xrd_simulator.scattering_factors import _lorentz

    k = h.real("k", 0.5, 60)
    pos = h.case("pos", [0, 1, 2])
    c, s = h.unit_scalars("two_theta", 2)
    h.assume(h.gt(s, 0))
    e, f = h.unit_scalars("eta", 2)
    rows = [h.tensor_of([k * 0.8, k * 0.36, k * 0.48]), h.tensor_of([k * 0.6, k * 0.0, k * 0.8])]
    rows.insert(pos, h.tensor_of([k * c, k * s * f, k * s * e]))
    L = _lorentz(h.tensor_of([k, 0.0, 0.0]), torch.stack(rows), h.tensor_of([0.0, 0.0, 1.0]))
    h.check(tuple(L.shape) == (3,), "one value per reflection")
    expect_lorentz(h, L[pos], c, s, e)
    other = [i for i in range(3) if i != pos]
    h.check(h.lt(h.abs(h.val(L[other[0]]) - 1 / 0.36), 1e-9, exact=True), "finite one")
    h.check(h.isinf(L[other[1]]), "infinite one")


@harness("P27", functions=["scattering_factors._polarization"], bounds="1 and 2 reflections, any non-zero wave vector in [-60,60]^3, any unit polarisation")
def polarization(h):
    """1-(p.k/|k|)^2 in [0,1]."""
    from xrd_simulator.scattering_factors import _polarization

    n = h.case("n", [1, 2])
    p = h.unit("p")
    k = h.reals("k", (n, 3), -60, 60)
    ks, ps = h.vals(k), h.vals(p)
    for r in ks:
        h.assume(h.gt(h.dot(r, r), 0.01))
    got = _polarization(k, p).reshape(-1)
    h.check(got.shape[0] == n, "one value per reflection")
    for i in range(n):
        d, q = h.dot(ps, ks[i]), h.dot(ks[i], ks[i])
        g = h.val(got[i])
        c = h.crossp(ps, ks[i])
        h.check(h.eq((1 - g) * q, d * d), "value: 1 - (p.k)^2/|k|^2, hence at most 1")
        h.check(h.eq(g * q, h.dot(c, c)), "value: |p x k|^2/|k|^2, hence at least 0")
    h.check_eq(k, ks, "input modified")


@harness("P27", functions=["scattering_factors._scherrer"], bounds="2 reflections; volume in [1e-9,1e6], theta in [0,1.5], wavelength in [0.05,5], K in [0.5,2]")
def scherrer(h):
    """K*lambda/(D cos theta), D the diameter in Angstrom of the sphere of the volume in cubic microns."""
    import math
    from xrd_simulator.scattering_factors import _scherrer

    v = h.reals("v", 2, 1e-9, 1e6)
    tt = h.reals("tt", 2, 0, 3.0)
    lam = h.real("lam", 0.05, 5)
    if h.flag("default_K"):
        K = 0.9
        got = _scherrer(v, tt, lam)
    else:
        K = h.real("K", 0.5, 2)
        got = _scherrer(v, tt, lam, K)
    vs, ts = h.vals(v), h.vals(tt)
    for i in range(2):
        g = h.val(got[i])
        # width = K lam/(D cos): D = K lam/(width cos); pi/6 D^3 = volume
        h.check(h.gt(g, 0), "positive")
        D = K * lam / (g * h.cos(ts[i] / 2)) / 10000.0
        h.check(h.eq(D * D * D * math.pi / 6, vs[i]), "sphere of the given volume")
