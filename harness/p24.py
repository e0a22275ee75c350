import itertools

from engine.harness import harness
from harness.p05 import B0, HKL, laue_stub, make_mesh, phase, reflections, beam, factors, factor_stubs
from harness.p23 import STUB as STUB23, Y, Z, operation, state

FN = ["polycrystal.Polycrystal.__init__", "polycrystal.Polycrystal.transform", "polycrystal.Polycrystal.diffract", "mesh.TetraMesh.update", "motion.RigidBodyMotion", "motion._RodriguezRotator.get_rotation_matrix", "laue._get_G"]
STUB = ["xfab.tools returns fixed reciprocal lattices", "the bounding spheres (P22) are arbitrary points"]


def matmul(h, a, b):
    return [[h.dot(r, c) for c in zip(*b)] for r in a]


def crystal(h, n, symbolic_strain=True, same=False):
    """A polycrystal, its orientations and strains, and the objects handed to it."""
    from xrd_simulator.polycrystal import Polycrystal

    mesh, _, centres = make_mesh(h, n)
    k = 1 if same else n
    U = [[[h.real("U%d%d%d" % (e, i, j), -1, 1) for j in range(3)] for i in range(3)] for e in range(k)]
    eps = []
    for e in range(k):
        s = [h.real("e%d%d" % (e, i), -0.01, 0.01) if symbolic_strain else 0.001 * (i + 1) * (e + 1) for i in range(6)]
        eps.append([[s[0], s[1], s[2]], [s[1], s[3], s[4]], [s[2], s[4], s[5]]])
    tU, teps = h.tensor_of(U[0] if same else U), h.tensor_of(eps[0] if same else eps)
    reflections(h)
    lattice_stub(h)
    pc = Polycrystal(mesh, tU, teps, [phase(4.0)], None)
    return pc, mesh, tU, teps, U * (n if same else 1), eps * (n if same else 1), centres


def lattice_stub(h):
    """The B matrices of strained crystals (P17) are replaced by arbitrary numbers: they only need a name here."""
    import inspect
    import torch
    from xrd_simulator import utils

    sig = inspect.signature(utils._lab_strain_to_B_matrix)

    def stub(*a, **k):
        strain, U, B = (torch.as_tensor(x) for x in sig.bind(*a, **k).arguments.values())
        return strain.reshape(-1, 3, 3) * 7 + U.reshape(-1, 3, 3) * 3 + B

    h.patch(utils, "_lab_strain_to_B_matrix", stub)


def turn(h, axis, angle):
    """The rotation matrix as a list of rows."""
    return [list(r) for r in zip(*[h.rodrigues(axis, angle, [1.0 if i == j else 0.0 for i in range(3)]) for j in range(3)])]


def check_transformed(h, steps, axes, n, same=False):
    from xrd_simulator.motion import RigidBodyMotion

    pc, mesh, tU, teps, U, eps, centres = crystal(h, n, same=same)
    first = state(h, mesh)
    keep = {k: h.vals(v) for k, v in (("U", tU), ("eps", teps), ("eB", pc._eB))}
    volumes = h.vals(pc.mesh_volumes)
    R = [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)]
    acts = []
    for s in range(steps):
        angle, time = h.real("a%d" % s, 0.01, 3.14), h.real("t%d" % s, 0, 1)
        tr = [h.real("m%d%d" % (s, j), -20, 20) for j in range(3)]
        org = [h.real("o%d%d" % (s, j), -20, 20) for j in range(3)]
        m = RigidBodyMotion(h.tensor_of(axes[s]), angle, h.tensor_of(tr), h.tensor_of(org))
        pc.transform(m, time)
        Rs = turn(h, axes[s], angle * time)
        R = matmul(h, Rs, R)
        acts.append((Rs, org, [t * time for t in tr]))

    def moved(p):
        for Rs, org, tr in acts:
            q = h.matvec(Rs, [p[j] - org[j] for j in range(3)])
            p = [q[j] + org[j] + tr[j] for j in range(3)]
        return p

    h.check_eq(pc.mesh_lab.coord, [moved(p) for p in first["coord"]], "lab nodes")
    h.check_eq(pc.mesh_lab.espherecentroids, [moved(p) for p in first["espherecentroids"]], "lab sphere centres")
    h.check_eq(pc.mesh_lab.ecentroids, [moved(p) for p in first["ecentroids"]], "lab element centroids")
    h.check_eq(pc.mesh_lab.enormals, [[h.matvec(R, v) for v in e] for e in first["enormals"]], "lab normals")
    Rt = [list(c) for c in zip(*R)]
    h.check_eq(pc.orientation_lab, [matmul(h, R, u) for u in U], "lab orientations")
    h.check_eq(pc.strain_lab, [matmul(h, matmul(h, R, e), Rt) for e in eps], "lab strains")
    h.check_eq(pc.orientation_sample, U, "sample orientations")
    h.check_eq(pc.strain_sample, eps, "sample strains")
    for k, v in first.items():
        h.check_eq(getattr(pc.mesh_sample, k), v, "sample mesh " + k)
        h.check_eq(getattr(mesh, k), v, "the mesh handed over: " + k)
    h.check_eq(tU, keep["U"], "orientations handed over")
    h.check_eq(teps, keep["eps"], "strains handed over")
    h.check_eq(pc._eB, keep["eB"], "lattice matrices")
    h.check_eq(pc.mesh_volumes, volumes, "volumes")
    return pc, U, R, keep["eB"]


@harness("P24", functions=FN, stubs=STUB, bounds="2 elements with any orientation matrices and strains, 2 transforms about z and -y by any angle, origin, translation and time", time=300, branch_ms=100, max_paths=300, timeout_ms=8000)
def twice(h):
    """Two transforms."""
    check_transformed(h, 2, [Z, Y], 2)


@harness("P24", functions=FN, stubs=STUB, bounds="1 or 2 elements, one transform about any axis; orientation and strain given per element or once for all", time=300, branch_ms=100, max_paths=300, timeout_ms=8000)
def any_axis(h):
    """Arbitrary axis."""
    n = h.case("elements", [1, 2])
    same = h.flag("one orientation for all")
    check_transformed(h, 1, [h.unit_scalars("axis", 3)], n, same)


@harness("P24", functions=FN + ["polycrystal.Polycrystal._compute_peaks"], stubs=STUB + ["one Laue solution per element at an arbitrary time"], bounds="2 elements, transform about z, then diffraction with a motion about z or -y", time=300, branch_ms=100, max_paths=300, timeout_ms=8000, arc_total=True)
def then_diffract(h):
    """The transformed crystal's scattering vectors are the rotated ones and its sources the moved ones; peaks computed earlier still describe the earlier crystal."""
    from xrd_simulator.motion import RigidBodyMotion

    pc, mesh, tU, teps, U, eps, centres = crystal(h, 2)
    eB = h.vals(pc._eB)
    factor_stubs(h)
    b = beam(h)
    times = [h.real("td%d" % i, 0, 1) for i in range(2)]
    laue_stub(h, lambda n, shape: [(0, 1, times[0]), (1, 2, times[1])])
    axis2 = h.case("second axis", [Z, Y])
    angle2 = h.real("b", 0.01, 3.14)
    m2 = RigidBodyMotion(h.tensor_of(axis2), angle2, h.tensor_of([1.0, 2.0, 3.0]))
    angle, time = h.real("a", 0.01, 3.14), h.real("t", 0, 1)
    tr = [h.real("m%d" % j, -20, 20) for j in range(3)]
    R = turn(h, Z, angle * time)
    kw = h.vals(b.wave_vector)
    for i, p in enumerate((1, 2)):
        g = h.matvec(U[i], h.matvec(eB[i], HKL[4.0][p]))
        for v in (g, h.matvec(R, g)):
            K = h.rodrigues(axis2, angle2 * times[i], v)
            K = [K[j] + kw[j] for j in range(3)]
            h.assume(h.gt(h.dot(K, K), 0.01))
    early = pc.diffract(b, m2, verbose=False)
    nodes = h.vals(early["mesh_lab"].coord)
    rows0 = h.vals(early["peaks"])
    pc.transform(RigidBodyMotion(h.tensor_of(Z), angle, h.tensor_of(tr)), time)
    rows = h.vals(pc.diffract(b, m2, verbose=False)["peaks"])
    for i, (r, q, p) in enumerate(zip(rows, rows0, (1, 2))):
        g = h.matvec(U[i], h.matvec(eB[i], HKL[4.0][p]))
        h.check_eq(q[7:10], g, "scattering vector before")
        h.check_eq(r[7:10], h.matvec(R, g), "rotated scattering vector")
        h.check_eq([r[j] for j in (0, 1, 2, 3, 4, 5, 6, 21)], [q[j] for j in (0, 1, 2, 3, 4, 5, 6, 21)], "identity of the rotated peak")
    h.check_eq(early["peaks"], rows0, "peaks computed before the transform")
    h.check_eq(early["mesh_lab"].coord, nodes, "the mesh that belongs to the peaks computed before the transform")
