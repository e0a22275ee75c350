from engine.harness import harness
from harness.common import comb, det_frame, make_detector
from harness.p05 import HUGE, beam, factor_stubs, laue_stub, make_mesh, phase, reflections
from harness.p24 import Z

FN = ["polycrystal.Polycrystal.diffract", "polycrystal.Polycrystal._get_bragg_angle_bounds", "phase.Phase._setup_diffracting_planes", "detector.Detector._get_wrapping_cone", "beam.Beam._contains"]
STUB = ["xfab.tools.genhkl_all records the range of sin(theta)/lambda that it is asked for", "no Laue solutions", "arc cosines of the corner directions are taken to be defined (Cauchy-Schwarz)"]
KW = dict(stubs=STUB, time=300, branch_ms=100, max_paths=500, timeout_ms=8000, arc_total=True, fork_max=True)


def crystal(h, phases=1, n=1):
    import torch
    from xrd_simulator.polycrystal import Polycrystal

    mesh, _, _ = make_mesh(h, n)
    calls = reflections(h)
    laue_stub(h, lambda n, shape: [])
    ph = [phase(4.0), phase(5.0)][:phases]
    pmap = [i % phases for i in range(n)]
    return Polycrystal(mesh, torch.eye(3, dtype=torch.float64), torch.zeros(3, 3), ph, pmap), mesh, calls, ph


def still(h):
    import torch
    from xrd_simulator.motion import RigidBodyMotion

    return RigidBodyMotion(h.tensor_of(Z), 0.1, torch.zeros(3))


def asked(h, calls, ph, lo, hi, wavelength):
    """Every phase was asked for exactly the range."""
    h.check(len(calls) == len(ph), "reflections generated once per phase")
    for p in ph:
        mine = [c for c in calls if list(c[0]) == list(p.unit_cell)]
        if h.check(len(mine) == 1, "the cell of each phase"):
            _, a, b, sg = mine[0]
            h.check_eq(a * wavelength, h.sin(lo), "lower bound of sin(theta)")
            h.check_eq(b * wavelength, h.sin(hi), "upper bound of sin(theta)")
            h.check(sg == p.sgname, "space group")


@harness("P08", functions=FN[:3], bounds="any wavelength in [0.1, 3], any bounds 0 <= min < max <= 1.57, one and two phases, bounds given or left to their defaults", **KW)
def requested(h):
    """Without a detector."""
    import math

    nph = h.case("phases", [1, 2])
    pc, mesh, calls, ph = crystal(h, nph, 2)
    w = h.real("wavelength", 0.1, 3)
    b = beam(h, wavelength=w)
    if h.flag("default"):
        pc.diffract(b, still(h), verbose=False)
        asked(h, calls, ph, 0.0, math.pi / 2, w)
        return
    lo, hi = h.real("min", 0, 1.5), h.real("max", 0, 1.57)
    h.assume(h.gt(hi - lo, 0.001))
    pc.diffract(b, still(h), min_bragg_angle=lo, max_bragg_angle=hi, verbose=False)
    asked(h, calls, ph, lo, hi, w)
    lo2, hi2 = lo / 2, hi / 3 + lo * 2 / 3
    del calls[:]
    pc.diffract(b, still(h), min_bragg_angle=lo2, max_bragg_angle=hi2, verbose=False)
    asked(h, calls, ph, lo2, hi2, w)


def cone(h, k, corners, s):
    """Half the largest angle between k and the directions from s to the corners."""
    angles = []
    for c in corners:
        d = [c[j] - s[j] for j in range(3)]
        angles.append(h.acos(h.dot(k, d) / h.norm(k) / h.norm(d)))
    best = angles[0]
    for a in angles[1:]:
        if h.decide(h.gt(a, best)):
            best = a
    return best / 2


@harness("P08", functions=FN[3:4], bounds="detectors of any pose (corners and sides in front of the source, axis-aligned up to a turn about the beam), any source point, any wave vector length, beam along x", **KW)
def wrapping_cone(h):
    """Half the largest corner angle."""
    from xrd_simulator.detector import Detector

    x, y, z = h.real("x", 10, 500), h.real("y", -100, 100), h.real("z", -100, 100)
    a, b, tilt = h.real("a", 1, 100), h.real("b", 1, 100), h.real("tilt", -4, 8)
    s = [h.real("s%d" % i, -5, 5) for i in range(3)]
    k = [h.real("k", 0.1, 50), 0.0, 0.0]
    c0, cy, cz = [x, y, z], [x, y + b, z], [x + tilt, y, z + a]

    det = Detector(h.tensor_of(c0), h.tensor_of(cy), h.tensor_of(cz), n_pixels=(2, 2))
    corners = [c0, cy, cz, [x + tilt, y + b, z + a]]
    want = cone(h, k, corners, s)
    h.check_eq(det._get_wrapping_cone(h.tensor_of(k), h.tensor_of(s)), want, "half opening angle")


@harness("P08", functions=FN, bounds="1 element with one arbitrary node; a beam that holds all, some or none of the nodes; detector at any distance in [60, 300]; any requested bounds", **KW)
def detector(h):
    """With a detector the upper bound is the smaller of the requested one and the cone of the illuminated nodes."""
    import numpy as np
    from xrd_simulator.beam import Beam
    from xrd_simulator.detector import Detector

    where = h.case("beam", ["wide", "cuts x", "misses"])
    w = 0.5
    pc, mesh, calls, ph = crystal(h)
    nodes = h.vals(mesh.coord)
    half = {"wide": ((-50.0, 50.0),) * 3, "cuts x": ((-50.0, 2.0), (-50.0, 50.0), (-50.0, 50.0)), "misses": ((-50.0, 50.0), (20.0, 30.0), (-5.0, 5.0))}[where]
    v = np.array([[a, b, c] for a in half[0] for b in half[1] for c in half[2]])
    bm = Beam(v, np.array([1.0, 0.0, 0.0]), w, np.array([0.0, 1.0, 0.0]))
    inside = []
    for p in nodes:
        ok = True
        for j in range(3):
            for sgn, lim in ((1, half[j][1]), (-1, half[j][0])):
                d = sgn * (p[j] - lim)
                if ok and not h.decide(h.lt(d, 0)):
                    ok = False
                h.assume(h.or_(h.gt(d, 1e-3), h.lt(d, -1e-3)))
        if ok:
            inside.append(p)
    use = inside or nodes
    s = [sum(p[j] for p in use) / len(use) for j in range(3)]
    D = h.real("distance", 60, 300)
    corners = [[D, -20.0, -10.0], [D, 30.0, -10.0], [D, -20.0, 40.0]]
    det = Detector(*[h.tensor_of(c) for c in corners], pixel_size=(0.5, 0.5))
    c = cone(h, [1.0, 0.0, 0.0], corners + [[D, 30.0, 40.0]], s)
    lo, hi = h.real("min", -0.3, 1.5), h.real("max", -0.2, 1.57)
    h.assume(h.or_(h.gt(hi - c, 1e-6), h.lt(hi - c, -1e-6)))
    top = c if h.decide(h.gt(hi, c)) else hi
    h.assume(h.or_(h.gt(lo, 1e-6), h.lt(lo, -1e-6), h.eq(lo, 0)))
    h.assume(h.or_(h.gt(top - lo, 1e-6), h.lt(top - lo, -1e-6)))
    if h.decide(h.lt(lo, 0)) or not h.decide(h.gt(top, lo)):

        h.check_raises(AssertionError, lambda: pc.diffract(bm, still(h), lo, hi, detector=det, verbose=False), "unusable bounds are refused")
        return

    pc.diffract(bm, still(h), lo, hi, detector=det, verbose=False)
    asked(h, calls, ph, lo, top, w)
