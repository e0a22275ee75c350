"""Sample templates: the powder of overlaid crystals and the cylinder filled from an orientation density."""
from engine.harness import harness
from harness.hulls import array
from harness.p05 import B0, reflections
from harness.p21 import det
from harness.p24 import lattice_stub

STUB = ["lattice matrices of strained crystals are simple functions of their arguments (P25)", "xfab returns fixed reciprocal lattices"]
CELL = [4.0, 5.0, 6.0, 90.0, 90.0, 90.0]


def spheres(h):
    """Bounding spheres (P22) are not computed."""
    import torch
    from xrd_simulator.mesh import TetraMesh

    h.patch(TetraMesh, "_compute_mesh_spheres", lambda self, c, e: (torch.ones(len(e), dtype=torch.float64), torch.zeros((len(e), 3), dtype=torch.float64)))


def tensor(h, name, size=0.01):
    s = [h.real(name + str(i), -size, size) for i in range(6)]
    return [[s[0], s[1], s[2]], [s[1], s[3], s[4]], [s[2], s[4], s[5]]]


def check_sample(h, pc, U, strain, cif, n):
    h.check(tuple(pc.orientation_lab.shape) == (n, 3, 3) and tuple(pc.strain_lab.shape) == (n, 3, 3), "one orientation and strain per element")
    h.check_eq(pc.orientation_lab, U, "orientation of every element")
    h.check_eq(pc.orientation_sample, U, "orientation in the sample frame")
    h.check_eq(pc.strain_lab, strain, "strain of every element")
    h.check_eq(pc.strain_sample, strain, "strain in the sample frame")
    phases = pc.phases
    h.check(len(phases) == 1 and list(phases[0].unit_cell) == CELL and phases[0].sgname == "P3221" and phases[0].path_to_cif_file == cif, "the requested phase")
    h.check([int(x) for x in pc.element_phase_map] == [0] * n, "one phase")
    want = [[[strain[e][i][j] * 7 + U[e][i][j] * 3 + B0[4.0][i][j] for j in range(3)] for i in range(3)] for e in range(n)]
    h.check_eq(pc._eB, want, "lattice of every element")


@harness("P32", functions=["templates.get_uniform_powder_sample", "polycrystal.Polycrystal.__init__"], stubs=STUB + ["scipy's Rotation.random returns arbitrary rotations"], bounds="1, 2, 3 or 6 grains, any radius, orientations and strain tensor; strain given or omitted; with or without a CIF file", time=200)
def powder(h):
    """Each grain is its own element around the origin inside the radius, with its own random orientation."""
    import numpy as np
    from xrd_simulator import templates

    reflections(h)
    lattice_stub(h)
    spheres(h)
    n = h.case("grains", [1, 2, 3, 6])
    r = h.real("radius", 0.01, 1000)
    U = [[[h.real("U%d%d%d" % (e, i, j), -1, 1) for j in range(3)] for i in range(3)] for e in range(n)]
    used = []

    class Rotation:
        def __init__(self, m):
            self.m = m

        @classmethod
        def random(cls, num=None, *a, **k):
            take = U[len(used) : len(used) + (1 if num is None else int(num))]
            used.extend(take)
            return cls(take[0] if num is None else take)

        def as_matrix(self):
            return array(h, self.m)

    h.patch(templates, "Rotation", Rotation)
    cif = h.case("cif", [None, "quartz.cif"])
    kw = {"path_to_cif_file": cif} if cif else {}
    strain = [[0.0] * 3] * 3
    if h.flag("strained"):
        strain = tensor(h, "e")
        kw["strain_tensor"] = array(h, strain)
    pc = templates.get_uniform_powder_sample(r, n, CELL, "P3221", **kw)
    h.check(len(used) == n, "a fresh random orientation for every grain")
    if len(used) != n:
        return
    check_sample(h, pc, U, [strain] * n, cif, n)
    mesh = pc.mesh_lab
    h.check(mesh.number_of_elements == n, "number of grains")
    coord, enod = h.vals(mesh.coord), mesh.enod.tolist()
    for e in enod:
        v = [coord[i] for i in e]
        for p in v:
            h.check(h.le(h.dot(p, p), r * r * (1 + 1e-9)), "inside the bounding radius")
        d = det(h, v)
        h.check(h.gt(h.abs(d), 0.1 * r * r * r), "a real volume around the origin")
        for k in range(4):
            w = list(v)
            w[k] = [0.0, 0.0, 0.0]
            h.check(h.gt(det(h, w) * d, 0), "the origin is inside every grain")


@harness("P32", functions=["templates.polycrystal_from_odf", "mesh.TetraMesh._build_tetramesh"], stubs=STUB + ["the mesher (meshpy) returns a fixed mesh, what it is asked for is checked", "the density sampler (P30) returns arbitrary orientations"], bounds="any height and radius in 0.5..2 with 1 or 600 crystals (more crystals than 8 facets need), three-element mesh, any orientations, any strain field linear in the position; strain, CIF file and bin separation given or omitted", time=300, max_paths=200)
def cylinder(h):
    """The requested cylinder is meshed; every element gets the orientation and strain of its own centroid."""
    import math
    import numpy as np
    from xrd_simulator import templates

    reflections(h)
    lattice_stub(h)
    spheres(h)
    asked = []
    points = [[0.0, 0.0, -0.25], [1.0, 0.0, -0.25], [0.0, 1.0, -0.25], [0.0, 0.0, 0.5], [-1.0, -0.5, -0.25], [0.5, -1.0, 0.25]]
    elements = [[0, 1, 2, 3], [0, 2, 4, 3], [0, 1, 5, 3]]

    class Info:
        def set_points(self, p, *a, **k):
            self.points = [h.vals(x) if hasattr(x, "shape") else list(x) for x in p]

        def set_facets(self, f, *a, **k):
            self.facets = [[int(i) for i in x] for x in f]

    class Built:
        pass

    def build(info, **k):
        asked.append((info, k))
        b = Built()
        b.points, b.elements = points, elements
        return b

    h.patch(templates.tet, "MeshInfo", Info)
    h.patch(templates.tet, "build", build)
    U = [[[h.real("U%d%d%d" % (e, i, j), -1, 1) for j in range(3)] for i in range(3)] for e in range(3)]
    centroids = [[sum(points[i][k] for i in e) / 4 for k in range(3)] for e in elements]
    order = []

    def which(x):
        x = [float(v) for v in h.vals(x)]
        return min(range(3), key=lambda e: sum((a - b) ** 2 for a, b in zip(x, centroids[e])))

    odf = lambda x, q: None
    seps = []

    def sample(ODF, maximum_sampling_bin_seperation, coordinates):
        h.check(ODF is odf, "the given density")
        seps.append(maximum_sampling_bin_seperation)
        rows = [which(c) for c in coordinates]
        h.check(rows == [0, 1, 2], "one orientation per element centroid")
        h.check_eq(coordinates, centroids, "orientations are drawn at the centroids")
        return array(h, [U[e] for e in rows])

    h.patch(templates, "_sample_ODF", sample)
    c = [tensor(h, "c%d" % i, 1e-3) for i in range(2)]
    strain = [[[0.0] * 3] * 3] * 3
    kw = {}
    full = h.flag("all options")
    if full:
        field = lambda x: [[c[0][i][j] + c[1][i][j] * (x[0] + 2 * x[1] - 3 * x[2]) for j in range(3)] for i in range(3)]
        kw = {"path_to_cif_file": "quartz.cif", "maximum_sampling_bin_seperation": 0.5, "strain_tensor": lambda x: array(h, field([float(v) for v in h.vals(x)]))}
        strain = [field(x) for x in centroids]
    number = h.case("crystals", [1, 600])
    H, R = h.real("height", 0.5, 2), h.real("radius", 0.5, 2)
    pc = templates.polycrystal_from_odf(odf, number, H, R, CELL, "P3221", **kw)
    check_sample(h, pc, U, strain, "quartz.cif" if full else None, 3)
    h.check(seps == [0.5] if full else abs(seps[0] - math.radians(5)) < 1e-12, "the requested bin separation")
    h.check_eq(pc.mesh_lab.coord, points, "mesh nodes")
    h.check(pc.mesh_lab.enod.tolist() == elements, "mesh elements")
    h.check(len(asked) == 1, "meshed once")
    info, opts = asked[0]
    surface(h, info.points, info.facets, H, R)
    cell = h.val(opts["max_volume"])
    vol = math.pi * R * R * H / number
    h.check(h.and_(h.gt(cell, vol), h.lt(cell, 10 * vol)), "the element size follows the mean crystal volume")


def surface(h, p, facets, H, R):
    """A closed surface whose nodes are the requested cylinder's."""
    n = len(p)
    for x in p:
        h.check(h.or_(h.eq(x[2], H / 2), h.eq(x[2], -H / 2)), "nodes on the end faces")
        rr = x[0] * x[0] + x[1] * x[1]
        h.check(h.or_(h.lt(h.abs(rr - R * R), 1e-9), h.lt(h.abs(rr), 1e-9)), "nodes on the rim or the axis")
    edges = {}
    for f in facets:
        h.check(len(set(f)) == 3 and all(0 <= i < n for i in f), "facets refer to nodes")
        for i in range(3):
            e = tuple(sorted((f[i], f[(i + 1) % 3])))
            edges[e] = edges.get(e, 0) + 1
    h.check(all(v == 2 for v in edges.values()), "closed surface")
    h.check(sorted({i for f in facets for i in f}) == list(range(n)), "every node is used")
    h.check(len(set(tuple(sorted(f)) for f in facets)) == len(facets), "no facet twice")
    h.check(n - len(edges) + len(facets) == 2, "surface of one piece")
    rim = [x for x in p if h.decide(h.gt(x[2], 0)) and h.decide(h.gt(x[0] * x[0] + x[1] * x[1], 0.01))]
    h.check(len(rim) >= 8, "at least eight sides")
    # area of the polygon spanned by the rim nodes in the order given: that of a regular polygon
    import math

    m = len(rim)
    area = sum(rim[i][0] * rim[(i + 1) % m][1] - rim[i][1] * rim[(i + 1) % m][0] for i in range(m)) / 2
    h.check(h.lt(h.abs(h.abs(area) - m / 2 * math.sin(2 * math.pi / m) * R * R), 1e-6 * R * R), "regular cross-section")
