from engine.harness import harness
from harness.common import PEAK_COLUMNS, peak
from harness.p11 import flat_detector

FN = ["detector.Detector.peaks_detector_intersection"]


@harness("P12", functions=FN, bounds="3 peaks: one with any factors (also infinite or not a number) in any position, one ordinary, one missing the detector; all 8 switch settings", time=300, max_paths=3000)
def product(h):
    """The product of exactly the enabled factors; discarded only if not finite or not positive."""
    sw = [h.flag("use_structure_factor"), h.flag("use_polarization"), h.flag("use_lorentz")]
    det = flat_detector(use_structure_factor=sw[0], use_polarization=sw[1], use_lorentz=sw[2])
    F2, pol = h.real("F2", -5, 50), h.real("pol", 0, 1)
    kind = h.case("lorentz", ["finite", "infinite", "nan"])
    L = h.real("L", 0, 100) if kind == "finite" else float("inf") if kind == "infinite" else float("nan")
    own = [x for x, s in zip((F2, pol), sw[:2]) if s]
    bad = sw[2] and kind != "finite"
    if sw[2] and kind == "finite":
        own.append(L)
    want = 1
    for x in own:
        want = want * x
    keep = not bad and (not own or h.decide(h.gt(want, 0)))
    pos = h.case("pos", [0, 1, 2])
    ok, miss = peak(h, F2=4.0, pol=0.25, lorentz=3.0, tag=2.0), peak(h, source=(0.0, 5.5, 0.0), F2=4.0, tag=3.0)
    rows = [ok, miss]
    mine = peak(h, F2=F2, pol=pol, lorentz=L, tag=1.0)
    rows.insert(pos, mine)
    table = h.tensor_of(rows)
    cols = list(PEAK_COLUMNS)
    d = {"peaks": table, "columns": cols, "mesh_lab": "something"}
    verbose = h.flag("verbose")
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = det.peaks_detector_intersection(d, 1, verbose)
    got = out["peaks"]
    expect = [(ok, (4.0 if sw[0] else 1.0) * (0.25 if sw[1] else 1.0) * (3.0 if sw[2] else 1.0))]
    if keep:
        expect.insert(0 if pos == 0 else 1, (mine, want))
    h.check(tuple(got.shape) == (len(expect), 30), "exactly the peaks with finite positive intensity on the detector")
    j = out["columns"].index("intensity_factors")
    for i, (row, w) in enumerate(expect[: got.shape[0]]):
        h.check_eq(got[i, :25], row, "kept row %d" % i)
        h.check_eq(got[i, j], w, "intensity factor of kept row %d" % i)
    h.check(out["mesh_lab"] == "something", "other entries are passed on")
    h.check(d["peaks"] is table and d["columns"] is cols and cols == PEAK_COLUMNS and set(d) == {"peaks", "columns", "mesh_lab"}, "caller's dictionary modified")
    h.check(tuple(table.shape) == (3, 25), "caller's table modified")
    h.check_eq(table, rows, "caller's table modified")
