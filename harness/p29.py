from engine.harness import harness
from harness.hulls import BoxHull

FN = ["templates.s3dxrd", "templates._get_detector_from_params", "templates._get_beam_from_params", "templates._get_motion_from_params"]


def parameters(h, nz=3, ny=2):
    pz, py, dist = h.real("pz", 0.1, 10), h.real("py", 0.1, 10), h.real("dist", 1, 1e5)
    return {
        "detector_distance": dist,
        "number_of_detector_pixels_z": nz,
        "number_of_detector_pixels_y": ny,
        "detector_center_pixel_z": h.real("cz", -10, 10),
        "detector_center_pixel_y": h.real("cy", -10, 10),
        "pixel_side_length_z": pz,
        "pixel_side_length_y": py,
        "wavelength": h.real("wavelength", 0.05, 2),
        "beam_side_length_z": h.real("bz", 0.1, 500),
        "beam_side_length_y": h.real("by", 0.1, 500),
        "rotation_step": h.real("step", 0.001, 3.1),
        "rotation_axis": h.unit_scalars("axis", 3),
    }


def run(h, p):
    import numpy as np
    from xrd_simulator import beam, templates

    if not h.concrete:
        h.patch(beam, "ConvexHull", lambda points, **k: BoxHull(h, points))
    p = dict(p)
    p["rotation_axis"] = h.tensor_of(p["rotation_axis"]).numpy() if not h.concrete else np.array(p["rotation_axis"])
    return templates.s3dxrd(p)


@harness("P29", functions=FN + ["detector.Detector.__init__"], bounds="any distance, pixel sizes, beam centre (on or off the detector), wavelength, beam sides and rotation; 3 x 2 or 2 x 4 pixels", stubs=["scipy ConvexHull of the beam corners is the exact axis-aligned box; rounding its equations to 6 decimals is the identity"], time=120)
def detector(h):
    """The beam axis meets the detector at the requested pixel; sizes, counts and distance as requested."""
    nz, ny = h.case("pixels", [(3, 2), (2, 4)])
    p = parameters(h, nz, ny)
    b, d, m = run(h, p)
    pz, py, dist = p["pixel_side_length_z"], p["pixel_side_length_y"], p["detector_distance"]
    cz, cy = p["detector_center_pixel_z"], p["detector_center_pixel_y"]
    h.check_eq(d.normal, [h.val(x) for x in h.vals(d.normal)], "finite")
    z, y, n, c0 = h.vals(d.zdhat), h.vals(d.ydhat), h.vals(d.normal), h.vals(d.det_corner_0)
    h.check(h.eq(n[0] * n[0], 1), "perpendicular to the x-axis")
    h.check(h.and_(h.eq(n[1], 0), h.eq(n[2], 0)), "normal along x")
    h.check(h.eq(c0[0], dist), "distance")
    at = [c0[i] + cz * pz * z[i] + cy * py * y[i] for i in range(3)]
    for i, w in enumerate([dist, 0, 0]):
        h.check(h.eq(at[i], w), "beam centre %d" % i)
    h.check_eq(d.pixel_size_z, pz, "pixel size z")
    h.check_eq(d.pixel_size_y, py, "pixel size y")
    h.check(tuple(d.pixel_coordinates.shape[:2]) == (nz, ny), "pixel counts")
    h.check_eq(d.zmax, nz * pz, "zmax")
    h.check_eq(d.ymax, ny * py, "ymax")
    h.check_eq(d.zdhat, [0.0, 0.0, 1.0], "z axis")
    h.check_eq(d.ydhat, [0.0, 1.0, 0.0], "y axis")


@harness("P29", functions=FN + ["beam.Beam.__init__", "beam.Beam._contains"], bounds="any parameters; containment of any point", stubs=["ConvexHull as above"], time=120)
def beam(h):
    """Beam along +x, y-polarised, with the requested cross-section and length."""
    import math

    p = parameters(h)
    x = [h.real("x%d" % i, -1.2e5, 1.2e5) for i in range(3)]
    b, d, m = run(h, p)
    h.check_eq(b.wave_vector, [2 * math.pi / p["wavelength"], 0.0, 0.0], "wave vector")
    h.check_eq(b.wavelength, p["wavelength"], "wavelength")
    h.check_eq(b.polarization_vector, [0.0, 1.0, 0.0], "polarisation")
    inside = h.and_(*[h.lt(h.abs(x[i]), s) for i, s in enumerate([p["detector_distance"], p["beam_side_length_y"] / 2, p["beam_side_length_z"] / 2])])
    got = h.val(b._contains(h.tensor_of(x)))
    if h.concrete:
        if h.and_(*[h.gt(h.abs(h.abs(x[i]) - s), 1e-4) for i, s in enumerate([p["detector_distance"], p["beam_side_length_y"] / 2, p["beam_side_length_z"] / 2])]):
            h.check(bool(got) == bool(inside), "cross-section")
        return
    h.check(h.implies(inside, got), "inside")
    h.check(h.implies(got, inside), "outside")


@harness("P29", functions=FN + ["motion.RigidBodyMotion.__call__"], bounds="any parameters, axis, step, point and time", stubs=["ConvexHull as above"], time=120)
def motion(h):
    """The motion is a rotation by the step about the axis, without translation."""
    p = parameters(h)
    x = [h.real("x%d" % i, -100, 100) for i in range(3)]
    t = h.real("t", 0, 1)
    b, d, m = run(h, p)
    h.check_eq(m.translation, [0.0, 0.0, 0.0], "no translation")
    want = h.rodrigues(p["rotation_axis"], t * p["rotation_step"], x)
    h.check_eq(m(h.tensor_of(x), t), want, "rotation")


@harness("P29", functions=FN, bounds="each of the 12 parameters missing, the others arbitrary", stubs=["ConvexHull as above"], time=120)
def missing(h):
    """Any missing parameter is refused."""
    p = parameters(h)
    k = h.case("missing", sorted(p))
    axis = p["rotation_axis"]
    del p[k]
    p.setdefault("rotation_axis", axis)
    if k == "rotation_axis":
        from xrd_simulator import templates

        del p[k]
        h.check_raises(ValueError, lambda: templates.s3dxrd(p), "missing " + k)
    else:
        h.check_raises(ValueError, lambda: run(h, p), "missing " + k)
