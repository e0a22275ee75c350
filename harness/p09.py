from engine.harness import harness
from harness.common import PEAK_COLUMNS, det_frame, in_frame, make_detector, peak

FN = ["detector.Detector.peaks_detector_intersection", "detector.Detector._get_intersection", "detector.Detector.contains"]
Z3 = (0.0, 0.0, 0.0)


@harness("P09", functions=FN, bounds="detector in any pose with sides in [4,20]; 1 to 3 peaks, one of which has any source in [-50,50] around the detector and any wave vector in [-20,20]^3, the others hit or miss; 1 or 3 frames", time=300, fork_where=True, branch_ms=200, max_paths=600)
def hits(h):
    """Kept exactly if the forward ray meets the detector inside its sides, with the intersection's coordinates."""
    frame = det_frame(h, lo=4)
    zmax, ymax = frame[4], frame[5]
    det = make_detector(h, frame, n_pixels=2, use_lorentz=False, use_polarization=False, use_structure_factor=False)
    a, b, d = h.real("sz", -50, 50), h.real("sy", -50, 50), h.real("sn", -50, 50)
    kz, ky, kn = h.real("kz", -20, 20), h.real("ky", -20, 20), h.real("kn", -20, 20)
    h.assume(h.ne(kn, 0))
    s = -d / kn
    zd, yd = a + s * kz, b + s * ky
    hit = h.decide(h.ge(s, 0)) and h.decide(h.between(0, zd, zmax)) and h.decide(h.between(0, yd, ymax))
    rows = [peak(h, in_frame(frame, Z3, kz, ky, kn), in_frame(frame, frame[0], a, b, d), tag=1.0)]
    want = [(rows[0], zd, yd)] if hit else []
    others = h.case("others", ["none", "hits before", "misses before, hits after"])
    if others != "none":
        good = peak(h, in_frame(frame, Z3, 0.0, 0.0, -2.0), in_frame(frame, frame[0], 1.5, 2.5, 3.0), time=0.75, tag=2.0)
        bad = peak(h, in_frame(frame, Z3, 0.0, 0.0, -2.0), in_frame(frame, frame[0], 1.5, 2.5, -3.0), tag=3.0)
        if others == "hits before":
            rows = [good] + rows
            want = [(good, 1.5, 2.5)] + want
        else:
            rows = [bad] + rows + [good]
            want = want + [(good, 1.5, 2.5)]
    table = h.tensor_of(rows)
    n = h.case("frames", [1, 3])
    out = det.peaks_detector_intersection({"peaks": table, "columns": list(PEAK_COLUMNS)}, n, False)
    h.check(out["columns"] == PEAK_COLUMNS + ["zd", "yd", "incident_angle", "frame", "intensity_factors"], "column names")
    got = out["peaks"]
    h.check(tuple(got.shape) == (len(want), 30), "exactly the peaks that hit are kept")
    for i, (row, wz, wy) in enumerate(want[: got.shape[0]]):
        h.check_eq(got[i, :25], row, "columns of kept peak %d" % i)
        h.check_eq(got[i, 25], wz, "zd of kept peak %d" % i)
        h.check_eq(got[i, 26], wy, "yd of kept peak %d" % i)
        if row[0] == 200.0:
            h.check(h.lt(h.abs(h.val(got[i, 27])), 1e-3, exact=True), "incident angle of the other peak")
        else:
            h.check_eq(got[i, 27], h.acos(-kn / h.norm([kz, ky, kn])) * (180 / h.pi), "incident angle")
    h.check_eq(table, rows, "input modified")


@harness("P09", functions=["detector.Detector._get_intersection"], bounds="1 ray as vectors or as a table, any pose, source and direction", time=200, fork_where=True)
def ray(h):
    """One ray: intersection, or not a number if the plane is behind the source."""
    frame = det_frame(h, lo=4)
    det = make_detector(h, frame, n_pixels=2)
    a, b, d = h.real("sz", -50, 50), h.real("sy", -50, 50), h.real("sn", -50, 50)
    kz, ky, kn = h.real("kz", -20, 20), h.real("ky", -20, 20), h.real("kn", -20, 20)
    h.assume(h.ne(kn, 0))
    K, S = h.tensor_of(in_frame(frame, Z3, kz, ky, kn)), h.tensor_of(in_frame(frame, frame[0], a, b, d))
    if h.flag("table"):
        K, S = K.reshape(1, 3), S.reshape(1, 3)
    got = det._get_intersection(K, S)
    h.check(tuple(got.shape) == (1, 3), "shape")
    s = -d / kn
    if h.decide(h.lt(s, 0)):
        h.check(h.isnan(got[0, 0]) or h.isnan(got[0, 1]), "behind the source")
    else:
        h.check_eq(got[0, 0], a + s * kz, "zd")
        h.check_eq(got[0, 1], b + s * ky, "yd")
    h.check_eq(got[0, 2], h.acos(-kn / h.norm([kz, ky, kn])) * (180 / h.pi), "incident angle")


@harness("P09", functions=["detector.Detector.contains"], bounds="3 coordinates in [-50,50]^2, sides in [4,20]", time=100)
def contains(h):
    """0 <= zd <= zmax and 0 <= yd <= ymax."""
    frame = det_frame(h, lo=4)
    det = make_detector(h, frame, n_pixels=2)
    z, y = h.reals("z", 3, -50, 50), h.reals("y", 3, -50, 50)
    got = det.contains(z, y)
    for i in range(3):
        zi, yi = h.val(z[i]), h.val(y[i])
        want = h.and_(h.between(0, zi, frame[4]), h.between(0, yi, frame[5]))
        h.check(h.and_(h.implies(want, got[i]), h.implies(got[i], want)), "inside %d" % i)


@harness("P09", functions=FN, bounds="detector normal to x or turned by the 3-4-5 angle, 1 peak with any source off its plane and any wave vector parallel to it", time=100, max_paths=1000)
def parallel(h):
    """A ray parallel to the detector is not reported."""
    from xrd_simulator.detector import Detector

    # exact numbers
    x, y, z = h.case("pose", [((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)), ((0.6, 0.8, 0.0), (-0.8, 0.6, 0.0), (0.0, 0.0, 1.0))])
    c0 = [10 * x[i] - 3 * y[i] - 2 * z[i] for i in range(3)]
    det = Detector(h.tensor_of(c0), h.tensor_of([c0[i] + 6 * y[i] for i in range(3)]), h.tensor_of([c0[i] + 4 * z[i] for i in range(3)]), n_pixels=2)
    a, b, d = h.real("sz", -50, 50), h.real("sy", -50, 50), h.real("sn", -50, 50)
    ky, kz = h.case("direction", [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (1.0, 1.0), (-1.0, 2.0)])
    k = h.real("k", 0.5, 20)
    h.assume(h.ne(d, 0))
    K = [k * (ky * y[i] + kz * z[i]) for i in range(3)]
    S = [c0[i] + a * z[i] + b * y[i] + d * x[i] for i in range(3)]
    table = h.tensor_of([peak(h, K, S)])
    out = det.peaks_detector_intersection({"peaks": table, "columns": list(PEAK_COLUMNS)}, 1, False)
    h.check(tuple(out["peaks"].shape) == (0, 30), "not reported")
