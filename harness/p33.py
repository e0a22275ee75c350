"""Simulating has no side effects: inputs stay as they are and results do not depend on earlier calls."""
import copy

from engine.harness import harness
from harness.common import PEAK_COLUMNS, peak
from harness.hulls import array
from harness.p05 import B0, beam as make_beam, factor_stubs, laue_stub, make_mesh, phase
from harness.p23 import Y, Z
from harness.p24 import lattice_stub

PC = ["orientation_lab", "orientation_sample", "strain_lab", "strain_sample", "element_phase_map", "_eB", "mesh_volumes"]
MESH = ["coord", "ecentroids", "espherecentroids", "centroid", "enormals", "eradius", "evolumes", "enod", "efaces"]
BEAM = ["wave_vector", "wavelength", "polarization_vector", "vertices", "centroid", "halfspaces"]
MOTION = ["rotation_axis", "rotation_angle", "translation", "origin"]
DET = ["det_corner_0", "det_corner_1", "det_corner_2", "zdhat", "ydhat", "normal", "zmax", "ymax", "pixel_size_z", "pixel_size_y", "pixel_coordinates", "gaussian_kernel", "gaussian_sigma", "lorentz_factor", "polarization_factor", "structure_factor"]
STUB = [
    "xfab's reflections and the structure factors are tables that depend on the wavelength and on the Bragg angle bounds",
    "the Laue solver (P03, P04) reports one solution for the first and one for the last element and plane, at times that depend on the planes asked for",
    "the strained lattices (P25) and the Lorentz, polarisation and Scherrer formulas (P27) are smooth functions of their arguments",
    "the beam illuminates everything (P06, P19)",
]


def value(h, x):
    if hasattr(x, "shape") or isinstance(x, (list, tuple)):
        return h.vals(x)
    return x


def snapshot(h, **objects):
    """Copies of everything a user sees of the objects."""
    out = {}
    for name, o in objects.items():
        for a in {"pc": PC, "beam": BEAM, "motion": MOTION, "det": DET, "mesh": MESH}[name.split("_")[0]]:
            out[name, a] = value(h, copy.deepcopy(getattr(o, a)))
        if name.startswith("pc"):
            for part in ("mesh_lab", "mesh_sample"):
                for a in MESH:
                    out[name, part + "." + a] = value(h, copy.deepcopy(getattr(getattr(o, part), a)))
            out[name, "phases"] = [(list(p.unit_cell), p.sgname, p.path_to_cif_file) for p in o.phases]
    return out


def unchanged(h, before, **objects):
    after = snapshot(h, **objects)
    for k, v in before.items():
        same(h, v, after[k], "%s.%s changed" % k)


def same(h, v, w, label):
    if isinstance(v, list) and v and isinstance(v[0], tuple):
        h.check(v == w, label)
    elif isinstance(v, (bool, str, type(None))):
        h.check(v is w or v == w, label)
    else:
        h.check_eq(w, v, label)


def same_result(h, a, b, label):
    h.check(list(a) == list(b), label + ": entries")
    h.check(a["columns"] == b["columns"], label + ": columns")
    h.check(tuple(a["peaks"].shape) == tuple(b["peaks"].shape), label + ": number of peaks")
    if tuple(a["peaks"].shape) == tuple(b["peaks"].shape):
        h.check_eq(b["peaks"], h.vals(a["peaks"]), label + ": peaks")
    for k in ("incident_vector", "wavelength", "rotation_axis"):
        same(h, value(h, a[k]), value(h, b[k]), label + ": " + k)
    for k, attrs in (("mesh_lab", MESH), ("rigid_body_motion", MOTION), ("beam", BEAM)):
        for x in attrs:
            same(h, value(h, getattr(a[k], x)), value(h, getattr(b[k], x)), "%s: %s.%s" % (label, k, x))


def world(h):
    """Tables of reflections and factors that depend on the request, and solutions that depend on the planes."""
    import numpy as np
    import torch
    from xfab import tools
    from xrd_simulator import structure_factors
    from xrd_simulator.beam import Beam

    def genhkl_all(unit_cell, sintlmin, sintlmax, sgname=None, **k):
        n = int(round(sintlmax * 2)) % 3 + 1
        o = float(unit_cell[0]) - 4
        return np.array([[i + 1 + o, int(round(sintlmin * 10)) % 5 - i, -1] for i in range(n)], dtype=float)

    f = h.real("F", 1, 2)

    def batch(miller_indices, unit_cell, *a, **k):
        m = np.asarray(miller_indices, dtype=float)
        return array(h, [[f + x[0], 0.5 + x[1]] for x in m.tolist()])

    h.patch(tools, "genhkl_all", genhkl_all)
    h.patch(tools, "form_b_mat", lambda cell: np.array(B0[float(cell[0])]))
    h.patch(structure_factors, "compute_structure_factors_batch", batch)
    times = {n: (h.real("t%d" % n, 0, 1), h.real("s%d" % n, 0, 1)) for n in range(1, 4)}
    laue_stub(h, lambda n, shape: [(0, 0, times[shape[-1]][0]), (shape[0] - 1, shape[-1] - 1, times[shape[-1]][1])])
    factor_stubs(h)
    lattice_stub(h)
    contains = Beam._contains
    h.patch(Beam, "_contains", lambda self, points: torch.ones(points.shape[1:], dtype=torch.bool) if points.ndim > 1 else contains(self, points))


def sample(h):
    from xrd_simulator.polycrystal import Polycrystal

    mesh, _, _ = make_mesh(h, 2)
    U = [[[1.0, 0.0, 0.0], [0.0, 0.8, -0.6], [0.0, 0.6, 0.8]], [[0.6, -0.8, 0.0], [0.8, 0.6, 0.0], [0.0, 0.0, 1.0]]]
    s = [0.001, 0.0005, -0.00025, -0.002, 0.00075, 0.003]
    return Polycrystal(mesh, h.tensor_of(U), h.tensor_of([[s[0], s[1], s[2]], [s[1], s[3], s[4]], [s[2], s[4], s[5]]]), [phase(4.0), phase(5.0, "some.cif")], [1, 0])


def motion(h, k, axis):
    from xrd_simulator.motion import RigidBodyMotion

    v = lambda n, lim: h.tensor_of([h.real("%s%d%d" % (n, k, i), -lim, lim) for i in range(3)])
    return RigidBodyMotion(h.tensor_of(axis), h.real("angle%d" % k, 0.01, 3), v("tr", 20), v("org", 20))


def detector():
    import numpy as np
    from xrd_simulator.detector import Detector

    return Detector(np.array([2e4, -3e4, -3e4]), np.array([2e4, 3e4, -3e4]), np.array([2e4, -3e4, 3e4]), n_pixels=(4, 4), use_polarization=False)


FN = ["polycrystal.Polycrystal.diffract", "polycrystal.Polycrystal._compute_peaks", "polycrystal.Polycrystal._get_bragg_angle_bounds", "polycrystal.Polycrystal.transform", "phase.Phase._setup_diffracting_planes", "motion.RigidBodyMotion"]


@harness("P33", functions=FN, stubs=STUB, bounds="2 elements of 2 phases (one with structure factors) with fixed orientations and strain, any bounding spheres, motions and solution times; two earlier diffractions and one last one, each out of four (other Bragg bounds, other wavelength and direction, other motion, detector-bound)", time=400, branch_ms=50, max_paths=300, timeout_ms=8000, arc_total=True)
def diffraction(h):
    """Diffraction does not remember earlier diffractions and leaves sample, beam, motion and detector alone."""
    world(h)
    pc = sample(h)
    beams = [make_beam(h), make_beam(h, (0.0, 0.0, -1.0), (0.0, 1.0, 0.0), 0.25)]
    motions = [motion(h, 0, Z), motion(h, 1, Y)]
    det = detector()
    calls = [
        lambda p: p.diffract(beams[0], motions[0], min_bragg_angle=0.1, max_bragg_angle=0.3, verbose=False),
        lambda p: p.diffract(beams[1], motions[0], min_bragg_angle=0.0, max_bragg_angle=0.6, verbose=False),
        lambda p: p.diffract(beams[0], motions[1], verbose=False),
        lambda p: p.diffract(beams[0], motions[0], detector=det, min_bragg_angle=0.05, max_bragg_angle=0.2, verbose=False),
    ]
    target = calls[h.case("target", [0, 1, 2, 3])]
    first, second = h.case("first", [0, 1, 2, 3]), h.case("second", [0, 1, 2, 3])
    fresh = copy.deepcopy(pc)
    before = snapshot(h, pc=pc, beam_0=beams[0], beam_1=beams[1], motion_0=motions[0], motion_1=motions[1], det=det)
    early = calls[first](pc)
    kept = copy.deepcopy(early)
    calls[second](pc)
    got = target(pc)
    unchanged(h, before, pc=pc, beam_0=beams[0], beam_1=beams[1], motion_0=motions[0], motion_1=motions[1], det=det)
    same_result(h, target(fresh), got, "after other diffractions")
    same_result(h, kept, early, "an earlier result")


@harness("P33", functions=FN, stubs=STUB, bounds="as above: diffraction, one arbitrary transform, diffraction again, compared with a copy that was only transformed", time=300, branch_ms=50, max_paths=300, timeout_ms=8000, arc_total=True)
def moving(h):
    """Diffracting before a transform has no influence on what follows, and results keep the pose they were made in."""
    world(h)
    pc = sample(h)
    b, m = make_beam(h), motion(h, 0, Z)
    step, t = motion(h, 1, Z), h.real("time", 0, 1)
    bounds = h.case("bounds", [(0.1, 0.3), (0.0, 0.6)])
    fresh = copy.deepcopy(pc)
    early = pc.diffract(b, m, min_bragg_angle=0.05, max_bragg_angle=0.2, verbose=False)
    kept = copy.deepcopy(early)
    before = snapshot(h, motion_0=m, motion_1=step, beam=b)
    pc.transform(step, t)
    fresh.transform(step, t)
    got = pc.diffract(b, m, min_bragg_angle=bounds[0], max_bragg_angle=bounds[1], verbose=False)
    same_result(h, fresh.diffract(b, m, min_bragg_angle=bounds[0], max_bragg_angle=bounds[1], verbose=False), got, "after an earlier diffraction")
    same_result(h, kept, early, "the earlier result")
    unchanged(h, before, motion_0=m, motion_1=step, beam=b)


class Scene:
    """Peaks of three elements, an axis-aligned beam and everything the three renderers need."""

    def __init__(self, h):
        import numpy as np
        from xrd_simulator.detector import Detector
        from xrd_simulator.motion import RigidBodyMotion

        self.det = Detector(np.array([10.0, 0.0, 0.0]), np.array([10.0, 24.0, 0.0]), np.array([10.0, 0.0, 16.0]), n_pixels=(8, 8), gaussian_sigma=0.3, use_polarization=False)
        self.mesh = make_mesh(h, 3, legs=False)[0]
        self.beam = make_beam(h)
        self.motion = RigidBodyMotion(np.array(Z), 0.5, np.zeros(3))
        rows = []
        for i, (z, y) in enumerate([(8.0, 12.0), (9.0, 8.0), (7.0, 11.0)]):
            r = peak(h, K=(1.0, 0.0, 0.0), source=(0.0, y, z), time=[0.1, 0.9, 0.4][i], volume=h.real("V%d" % i, 1, 2), F2=h.real("F%d" % i, 1, 2), tag=0)
            r[0], r[24] = float(i), float(i)
            rows.append(r)
        self.peaks = {"peaks": h.tensor_of(rows), "columns": list(PEAK_COLUMNS), "mesh_lab": self.mesh, "rigid_body_motion": self.motion, "beam": self.beam, "incident_vector": self.beam.wave_vector, "wavelength": 0.5, "rotation_axis": self.motion.rotation_axis, "verbose": False}


@harness("P33", functions=["detector.Detector.render", "detector.Detector.peaks_detector_intersection", "detector.Detector._render_gauss_peaks", "detector.Detector._render_airy_peaks", "detector.Detector._conv2d_gaussian_kernel"], stubs=["macro rendering (P15) deposits volume times intensity into one pixel"], bounds="3 peaks of any volumes and structure factors at fixed places; an earlier rendering and a last one, each out of four (micro, nano, automatic, macro with point spread; 1, 2 or 3 frames)", time=400, branch_ms=50, max_paths=300, timeout_ms=8000, arc_total=True)
def rendering(h):
    """Rendering does not remember earlier renderings and leaves peaks, detector and sample alone."""
    import inspect
    import torch
    from xrd_simulator.detector import Detector

    sig = inspect.signature(Detector._render_projected_volumes)

    def macro(*a, **k):
        args = sig.bind(*a, **k).arguments
        n = [int(v) for v in args.values() if isinstance(v, int) and not isinstance(v, bool)][0]
        out = torch.zeros((n,) + tuple(args["self"].pixel_coordinates.shape[:2]), dtype=torch.float64)
        for p in args["peaks"]:
            out[int(p[28]), 0, int(p[24])] = p[21] * p[29]
        return out

    h.patch(Detector, "_render_projected_volumes", macro)
    s = Scene(h)
    ops = [
        lambda d, p: d.render(p, frames_to_render=3, method="micro")[0],
        lambda d, p: d.render(p, frames_to_render=1, method="nano")[0],
        lambda d, p: d.render(p, frames_to_render=2, method="auto", micro_grain_limit=0.5, macro_grain_limit=1.5)[0],
        lambda d, p: d._conv2d_gaussian_kernel(d.render(p, frames_to_render=2, method="macro")[0]),
    ]
    first, last = (h.case("first", [0, 1, 2, 3]), h.case("last", [0, 1, 2, 3]))
    fresh = copy.deepcopy(s.det)
    peaks = copy.deepcopy(s.peaks)
    table, columns, entries = h.vals(s.peaks["peaks"]), list(s.peaks["columns"]), {k: id(v) for k, v in s.peaks.items()}
    before = snapshot(h, det=s.det, mesh=s.mesh, beam=s.beam, motion=s.motion)
    early = ops[first](s.det, s.peaks)
    kept = h.vals(early)
    got = ops[last](s.det, s.peaks)
    h.check_eq(early, kept, "an earlier image changed")
    h.check_eq(s.peaks["peaks"], table, "the caller's peaks changed")
    h.check(s.peaks["columns"] == columns and {k: id(v) for k, v in s.peaks.items()} == entries, "the caller's dictionary changed")
    unchanged(h, before, det=s.det, mesh=s.mesh, beam=s.beam, motion=s.motion)
    want = ops[last](fresh, peaks)
    h.check(tuple(want.shape) == tuple(got.shape), "shape of the frames")
    h.check_eq(got, h.vals(want), "the image depends on earlier renderings")
