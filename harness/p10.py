from engine.harness import harness
from harness.common import comb, det_frame, make_detector

FN = ["detector.Detector.__init__", "detector.Detector._get_pixel_coordinates"]


def check_frame(h, det, frame):
    c0, z, y, n, zmax, ymax = frame
    h.check_eq(det.det_corner_0, c0, "corner 0")
    h.check_eq(det.det_corner_1, comb(c0, (ymax, y)), "corner 1")
    h.check_eq(det.det_corner_2, comb(c0, (zmax, z)), "corner 2")
    h.check_eq(det.zdhat, z, "zdhat")
    h.check_eq(det.ydhat, y, "ydhat")
    h.check_eq(det.normal, n, "normal")
    h.check_eq(det.zmax, zmax, "zmax")
    h.check_eq(det.ymax, ymax, "ymax")


def check_pixels(h, det, frame, nz, ny, pz, py):
    c0, z, y, n, zmax, ymax = frame
    h.check_eq(det.pixel_size_z, pz, "pixel_size_z")
    h.check_eq(det.pixel_size_y, py, "pixel_size_y")
    h.check(tuple(det.pixel_coordinates.shape) == (nz, ny, 3), "number of pixels")
    for i in range(nz):
        for j in range(ny):
            h.check_eq(det.pixel_coordinates[i, j], comb(c0, (pz * i, z), (py * j, y)), "pixel %d,%d" % (i, j))


@harness("P10", functions=FN, bounds="any pose, sides in [0.5,20], n_pixels = 3, (2,4), [5,1]", time=200)
def by_count(h):
    """Pixel counts: rows go with z, columns with y."""
    kind = h.case("n_pixels", [3, (2, 4), [5, 1]])
    frame = det_frame(h)
    det = make_detector(h, frame, n_pixels=kind)
    nz, ny = kind if isinstance(kind, (tuple, list)) else (kind, kind)
    check_frame(h, det, frame)
    check_pixels(h, det, frame, nz, ny, frame[4] / nz, frame[5] / ny)


@harness("P10", functions=FN, bounds="any pose; pixel sizes such that the sides hold up to 3 x 2 pixels, whole or not", time=300, max_paths=600)
def by_size(h):
    """Pixel sizes: as many pixels as it takes to cover the side."""
    frame = det_frame(h)
    zmax, ymax = frame[4], frame[5]
    pz = h.real("pz", 0.1, 20)
    nz = h.case("nz", [1, 2, 3])
    # nz pixels cover the side and nz - 1 do not (by more than round-off)
    h.assume(h.le(zmax, nz * pz, exact=True))
    h.assume(h.gt(zmax, (nz - 1 + 1e-6) * pz))
    form = h.case("pixel_size", ["number", "tuple", "list"])
    if form == "number":
        py = pz
        ny = nz
        h.assume(h.le(ymax, ny * py, exact=True))
        h.assume(h.gt(ymax, (ny - 1 + 1e-6) * py))
        det = make_detector(h, frame, pixel_size=pz)
    else:
        py = h.real("py", 0.1, 20)
        ny = h.case("ny", [1, 2])
        h.assume(h.le(ymax, ny * py, exact=True))
        h.assume(h.gt(ymax, (ny - 1 + 1e-6) * py))
        det = make_detector(h, frame, pixel_size=(pz, py) if form == "tuple" else [pz, py])
    check_frame(h, det, frame)
    check_pixels(h, det, frame, nz, ny, pz, py)


@harness("P10", functions=FN, bounds="any pose")
def refused(h):
    """Both or neither of n_pixels and pixel_size."""
    frame = det_frame(h)
    h.check_raises(ValueError, lambda: make_detector(h, frame), "neither")
    h.check_raises(ValueError, lambda: make_detector(h, frame, n_pixels=2, pixel_size=1.5), "both")
    h.check_raises(ValueError, lambda: make_detector(h, frame, n_pixels=(2, 3), pixel_size=(1.5, 2.0)), "both as tuples")
