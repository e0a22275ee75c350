from engine.harness import harness
from harness.common import PEAK_COLUMNS, peak

FN = ["detector.Detector.peaks_detector_intersection"]


def flat_detector(**kw):
    import numpy as np
    from xrd_simulator.detector import Detector

    o = dict(n_pixels=2, use_lorentz=False, use_polarization=False, use_structure_factor=False)
    o.update(kw)
    return Detector(np.array([10.0, -5.0, -5.0]), np.array([10.0, 5.0, -5.0]), np.array([10.0, -5.0, 5.0]), **o)


@harness("P11", functions=FN, bounds="2 peaks with any diffraction times in [0,1]; 0, 1, 2, 3, 4, 7 (thorough: also 5, 6, 10, 30) frames", time=200, max_paths=3000, fork_where=True, fork_max=True)
def binning(h):
    """Each peak is in one frame f with f/n <= t <= (f+1)/n."""
    n = h.case("n", [-2, 0, 1, 2, 3, 4, 7] + ([5, 6, 10, 30] if h.tier == "thorough" else []))
    det = flat_detector()
    t = [h.real("t0", 0, 1), h.real("t1", 0, 1)]
    table = h.tensor_of([peak(h, time=t[0], tag=1.0), peak(h, time=t[1], tag=2.0)])
    out = det.peaks_detector_intersection({"peaks": table, "columns": list(PEAK_COLUMNS)}, n, False)
    j = out["columns"].index("frame")
    got = out["peaks"]
    h.check(tuple(got.shape) == (2, 30), "both peaks are kept")
    m = max(n, 1)
    for i in range(2):
        f = h.val(got[i, j])
        h.check_eq(got[i, 6], t[i], "its own time")
        k = [c for c in range(m) if h.decide(h.eq(f, float(c)))]
        h.check(len(k) == 1, "one whole frame number in 0..n-1")
        for c in k:
            h.check(h.le(c / m - 1e-12, t[i]), "not before its frame")  # edges are rounded
            h.check(h.le(t[i], (c + 1) / m + 1e-12), "not after its frame")


@harness("P11", functions=FN, bounds="3 peaks, one at any time in [0,1] in any position, the others fixed; 3 frames", time=200, max_paths=1000)
def edges(h):
    """The ends of the interval and the bin edges belong to a neighbouring frame; other peaks do not matter."""
    det = flat_detector()
    pos = h.case("pos", [0, 1, 2])
    special = h.case("t", [None, 0.0, 1.0, 1 / 3, 2 / 3])
    t = h.real("t", 0, 1) if special is None else special
    rows = [peak(h, time=0.9, tag=2.0), peak(h, time=0.1, tag=3.0)]
    rows.insert(pos, peak(h, time=t, tag=1.0))
    out = det.peaks_detector_intersection({"peaks": h.tensor_of(rows), "columns": list(PEAK_COLUMNS)}, 3, False)
    got = out["peaks"]
    h.check(tuple(got.shape) == (3, 30), "all peaks are kept")
    rest = [i for i in range(3) if i != pos]
    h.check_eq(got[rest[0], 28], 2.0, "frame of a late peak")
    h.check_eq(got[rest[1], 28], 0.0, "frame of an early peak")
    f = h.val(got[pos, 28])
    ok = [h.and_(h.eq(f, float(c)), h.between(c / 3 - 1e-12, t, (c + 1) / 3 + 1e-12)) for c in range(3)]
    h.check(h.or_(*ok), "frame of its own time")
