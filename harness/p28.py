import copy
import os
import shutil
import tempfile

from engine.harness import harness
from harness.common import det_frame, make_detector
from harness.p05 import beam as make_beam
from harness.p23 import Y, Z, operation, state
from harness.p24 import crystal, turn
from harness.hulls import BoxHull, array

STUB = ["pickling itself: dill hands back a deep copy of what was dumped (the files are real, in a scratch directory)"]
KW = dict(time=300, max_paths=400)


class Shelf:
    """dill with deep copies in place of bytes, and a scratch directory."""

    def __init__(self, h):
        import dill

        self.kept = []
        self.dir = tempfile.mkdtemp(prefix="xrd-p28-")
        h.patch(dill, "dump", lambda obj, f, *a, **k: f.write(self.put(obj)))
        h.patch(dill, "dumps", lambda obj, *a, **k: self.put(obj))
        h.patch(dill, "load", lambda f, *a, **k: self.get(f.read()))
        h.patch(dill, "loads", lambda b, *a, **k: self.get(b))

    def put(self, obj):
        self.kept.append(copy.deepcopy(obj))
        return b"object %d" % (len(self.kept) - 1)

    def get(self, data):
        return copy.deepcopy(self.kept[int(data.split()[1])])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def files(self):
        return sorted(os.path.relpath(os.path.join(d, f), self.dir) for d, _, fs in os.walk(self.dir) for f in fs)

    def round_trip(self, h, obj, ext, name, **kw):
        """Saves under the name, checks the files, loads from it and refuses other names."""
        path = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        obj.save(path, **kw)
        full = name if name.endswith(ext) else name + ext
        h.check(os.path.normpath(full) in self.files(), "file %s" % full)
        h.check(all(f.endswith(ext) or f.endswith(".xdmf") for f in self.files()), "no other files")
        wrong = os.path.join(self.dir, "other")
        for w in (wrong, wrong + ".txt", wrong + ext + ".bak"):
            with open(w, "wb") as f:
                f.write(b"object 0")
            h.check_raises(ValueError, lambda: type(obj).load(w), "loading %s" % os.path.basename(w))
            os.remove(w)
        return type(obj).load(os.path.join(self.dir, full))


def names(h, ext):
    return h.case("name", ["thing", "thing" + ext, "run.2/thing", "./thing" + ext, "run.2/a.b" + ext])


def same(h, a, b, attrs, label=""):
    for k in attrs:
        x, y = getattr(a, k), getattr(b, k)
        h.check_eq(y, h.vals(x), label + k)
        if hasattr(x, "dtype") and hasattr(y, "dtype"):
            h.check(str(x.dtype) == str(y.dtype), label + k + " keeps its precision")


BEAM = ["wave_vector", "vertices", "centroid", "polarization_vector", "halfspaces"]


@harness("P28", functions=["beam.Beam.save", "beam.Beam.load"], stubs=STUB, bounds="any propagation direction in the plane across y, any wavelength and polarisation along y; 3 shapes, before and after a change of the cross-section; 5 kinds of file name", **KW)
def beams(h):
    """A beam comes back with the same vectors, wavelength and faces."""
    import numpy as np
    from xrd_simulator.beam import Beam

    lam = h.real("lam", 0.05, 2)
    shapes = [
        [[x, y, z] for x in (-10.0, 10.0) for y in (-3.0, 3.0) for z in (-2.0, 2.0)],
        [[x, y, z] for x in (-50.0, 50.0) for y, z in ((-1.0, -2.0), (6.5, -2.0), (-1.0, 8.0))],
        [[0.0, 0.0, 0.0], [9.0, 0.0, 0.0], [0.0, 9.0, 0.0], [0.0, 0.0, 9.0]],
    ]
    k = h.case("shape", [0, 1, 2])
    d = [h.real("kx", 0.5, 5), 0.0, h.real("kz", -2, 2)]
    b = Beam(np.array(shapes[k]), h.tensor_of(d), lam, np.array([0.0, 3.0, 0.0]))
    if h.flag("changed"):
        import torch

        b.set_beam_vertices(torch.tensor(shapes[(k + 1) % 3], dtype=torch.float64))
    with Shelf(h) as shelf:
        before = copy.deepcopy(b)
        c = shelf.round_trip(h, b, ".beam", names(h, ".beam"))
        same(h, before, c, BEAM)
        same(h, before, b, BEAM, "the saved object's ")
        h.check_eq(c.wavelength, lam, "wavelength")
        p = [h.real("p%d" % i, -5, 5) for i in range(3)]
        inside = h.val(b._contains(h.tensor_of(p)))
        h.check(h.and_(h.implies(inside, h.val(c._contains(h.tensor_of(p)))), h.implies(h.val(c._contains(h.tensor_of(p))), inside)), "contains the same points")


DET = ["det_corner_0", "det_corner_1", "det_corner_2", "zdhat", "ydhat", "normal", "zmax", "ymax", "pixel_size_z", "pixel_size_y", "pixel_coordinates", "gaussian_kernel", "gaussian_sigma"]


@harness("P28", functions=["detector.Detector.save", "detector.Detector.load"], stubs=STUB, bounds="any pose and size, pixels given as numbers or sizes, all switches; 5 kinds of file name; sigma changed after construction or not", branch_ms=50, **KW)
def detectors(h):
    """A detector comes back with the same geometry, switches and point spread."""
    frame = det_frame(h)
    on = [h.flag("use lorentz"), h.flag("use polarisation"), h.flag("use structure factors")]
    det = make_detector(h, frame, n_pixels=(2, 3), use_lorentz=on[0], use_polarization=on[1], use_structure_factor=on[2], gaussian_sigma=0.75)
    if h.flag("changed"):
        det.gaussian_sigma = 0.5
    with Shelf(h) as shelf:
        before = copy.deepcopy(det)
        c = shelf.round_trip(h, det, ".det", names(h, ".det") if not any(on) else "x.det")
        same(h, before, c, DET)
        same(h, before, det, DET, "the saved object's ")
        sw = lambda x: [bool(x.lorentz_factor), bool(x.polarization_factor), bool(x.structure_factor)]
        h.check(sw(c) == on, "switches")
        if any(on):
            return
        k, f = h.vals(frame[3]), h.real("distance", 1, 100)
        s = [h.val(frame[0][i]) - f * k[i] + h.real("off%d" % i, -1, 1) * h.val(frame[2][i]) for i in range(3)]
        a = det._get_intersection(h.tensor_of([k]), h.tensor_of([s]))
        b = c._get_intersection(h.tensor_of([k]), h.tensor_of([s]))
        h.check_eq(b[:, 0:2], h.vals(a[:, 0:2]), "hits")


@harness("P28", functions=["motion.RigidBodyMotion.save", "motion.RigidBodyMotion.load"], stubs=STUB, bounds="any angle, translation and origin about two axes, also the inverse of a motion; 5 kinds of file name", **KW)
def motions(h):
    """A motion comes back and moves points in the same way."""
    from xrd_simulator.motion import RigidBodyMotion

    axis = h.case("axis", [Z, Y])
    angle = h.real("angle", 0.01, 3.1)
    tr, org = [h.real("tr%d" % i, -20, 20) for i in range(3)], [h.real("org%d" % i, -20, 20) for i in range(3)]
    m = RigidBodyMotion(h.tensor_of(axis), angle, h.tensor_of(tr), h.tensor_of(org))
    if h.flag("inverse"):
        m = m.inverse()
        axis, tr = [-v for v in axis], [-v for v in tr]
    with Shelf(h) as shelf:
        c = shelf.round_trip(h, m, ".motion", names(h, ".motion"))
        same(h, m, c, ["rotation_axis", "translation", "origin"])
        h.check_eq(c.rotation_axis, axis, "axis")
        h.check_eq(c.translation, tr, "translation")
        h.check_eq(c.origin, org, "origin")
        h.check_eq(c.rotation_angle, angle, "angle")
        p, t = [h.real("p%d" % i, -5, 5) for i in range(3)], h.real("t", 0, 1)
        q = h.rodrigues(axis, angle * t, [p[i] - org[i] for i in range(3)])
        h.check_eq(c(h.tensor_of([p]), t), [[q[i] + org[i] + t * tr[i] for i in range(3)]], "moved point")


PC = ["orientation_lab", "orientation_sample", "strain_lab", "strain_sample", "element_phase_map", "_eB", "mesh_volumes"]
MESH = ["coord", "ecentroids", "espherecentroids", "centroid", "enormals", "eradius", "enod", "efaces"]


@harness("P28", functions=["polycrystal.Polycrystal.save", "polycrystal.Polycrystal.load"], stubs=STUB + ["strained B matrices are simple functions of their arguments (P17)"], bounds="2 elements with any orientation and strain, after 0 or 1 arbitrary motions; 5 kinds of file name; transformed again after loading", **KW)
def polycrystals(h):
    """A polycrystal comes back in its current pose and can be transformed further."""
    from xrd_simulator.motion import RigidBodyMotion
    from xrd_simulator.polycrystal import Polycrystal

    name = names(h, ".pc")
    moved = h.flag("moved") if name == "thing" else True
    pc = crystal(h, 2)[0]

    def step(i):
        m = RigidBodyMotion(h.tensor_of([Z, Y][i]), h.real("a%d" % i, 0.01, 3), h.tensor_of([h.real("tr%d%d" % (i, j), -5, 5) for j in range(3)]))
        return m, h.real("t%d" % i, 0, 1)

    if moved:
        pc.transform(*step(0))
    with Shelf(h) as shelf:
        before = copy.deepcopy(pc)
        c = shelf.round_trip(h, pc, ".pc", name, save_mesh_as_xdmf=False)
        again = step(1)
        for i in range(2):
            for o, label in ((pc, "the saved object's "), (c, "")):
                same(h, before, o, PC, label)
                for mesh in ("mesh_lab", "mesh_sample"):
                    same(h, getattr(before, mesh), getattr(o, mesh), MESH, label + mesh + ".")
            h.check(len(c.phases) == len(before.phases) and all(list(p.unit_cell) == list(q.unit_cell) and p.sgname == q.sgname and p.path_to_cif_file == q.path_to_cif_file for p, q in zip(c.phases, before.phases)), "phases")
            if i == 0:
                for o in (pc, c, before):
                    o.transform(*again)


@harness("P28", functions=["polycrystal.Polycrystal.save", "mesh.TetraMesh.save"], stubs=STUB + ["meshio only records what is written"], bounds="2 elements with the identity orientation and any strain; 5 kinds of file name", **KW)
def xdmf(h):
    """The mesh file lies next to the .pc file, in sample coordinates, and saving it leaves the object as it is."""
    import torch
    from xrd_simulator import mesh as M
    from xrd_simulator.motion import RigidBodyMotion
    from xrd_simulator.polycrystal import Polycrystal
    from harness.p05 import make_mesh, phase, reflections
    from harness.p24 import lattice_stub

    name = names(h, ".pc")
    mesh, _, _ = make_mesh(h, 2)
    eps = [[[h.real("e%d%d%d" % (e, min(i, j), max(i, j)), -0.01, 0.01) if i <= j else None for j in range(3)] for i in range(3)] for e in range(2)]
    eps = [[[m[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)] for m in eps]
    reflections(h)
    lattice_stub(h)
    pc = Polycrystal(mesh, torch.eye(3, dtype=torch.float64), h.tensor_of(eps), [phase(4.0), phase(5.0)], [1, 0])
    pc.transform(RigidBodyMotion(h.tensor_of(Z), h.real("a", 0.01, 3), h.tensor_of([1.0, 2.0, 3.0])), 1.0)
    wrote = []
    h.patch(M.meshio, "write_points_cells", lambda path, points, cells, cell_data=None, **k: wrote.append((path, points, cells, cell_data)))
    with Shelf(h) as shelf:
        before = copy.deepcopy(pc)
        shelf.round_trip(h, pc, ".pc", name)
        h.check(len(wrote) == 1, "one mesh file")
        base = name[:-3] if name.endswith(".pc") else name
        path, points, cells, data = wrote[0]
        h.check(os.path.normpath(path) == os.path.normpath(os.path.join(shelf.dir, base + ".xdmf")), "mesh file name")
        h.check_eq(points, h.vals(before.mesh_sample.coord), "points in the sample frame")
        h.check(cells[0][0] == "tetra" and [list(map(int, r)) for r in cells[0][1]] == before.mesh_sample.enod.tolist(), "elements")
        for k, (i, j) in dict(xx=(0, 0), yy=(1, 1), zz=(2, 2), xy=(0, 1), xz=(0, 2), yz=(1, 2)).items():
            got = data["Strain Tensor Component " + k][0]
            for e in range(2):
                h.check_eq(got[e], eps[e][i][j], "strain " + k)
        h.check([float(h.val(x)) if not h.concrete else float(x) for x in data["Material Phase Index"][0]] == [1.0, 0.0], "phases")
        same(h, before, pc, PC, "the saved object's ")
        same(h, before.mesh_sample, pc.mesh_sample, MESH, "the saved object's mesh ")
