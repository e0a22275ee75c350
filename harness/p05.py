import inspect

from engine.harness import harness
from harness.p21 import build

FN = ["polycrystal.Polycrystal.diffract", "polycrystal.Polycrystal._compute_peaks", "motion.RigidBodyMotion", "laue._get_G", "scattering_factors._lorentz", "scattering_factors._polarization", "scattering_factors._scherrer"]
STUB = ["xfab.tools returns fixed Miller indices and reciprocal lattices", "the structure factors are arbitrary numbers", "the Laue solver (P03, P04) returns an arbitrary set of elements, planes and times with those planes' vectors", "bounding spheres (P22) are arbitrary"]
COLUMNS = (
    "grain_index phase_number h k l structure_factors diffraction_times G0_x G0_y G0_z Gx Gy Gz K_out_x K_out_y K_out_z Source_x Source_y Source_z "
    "lorentz_factors polarization_factors volumes 2theta scherrer_fwhm peak_index"
).split()
HKL = {4.0: [[1, 0, 0], [0, 2, -1], [-1, 1, 3]], 5.0: [[2, 0, 0], [0, 1, 1]], 6.0: [[0, 0, 1]]}
OFF = [[0.0, 0.0, 0.0], [10.0, 0.0, 0.0], [0.0, 20.0, 5.0], [-7.0, 3.0, 2.0]]
AXES = [[0.0, 0.0, 1.0], [0.0, -1.0, 0.0], None]
HUGE = 1e6


def make_mesh(h, n, legs=True, span=50):
    """n corner elements with one arbitrary leg each, and arbitrary bounding spheres."""
    coord, legs_, enod = [], [], []
    for i in range(n):
        a = h.real("leg%d" % i, 0.5, 3) if legs else 1.0 + i
        p = OFF[i]
        enod.append([len(coord) + j for j in range(4)])
        coord += [[p[0], p[1], p[2]], [p[0] + a, p[1], p[2]], [p[0], p[1] + 1, p[2]], [p[0], p[1], p[2] + 1]]
        legs_.append(a)
    mesh = build(h, coord, enod)
    centres = [[h.real("s%d%d" % (i, j), -span, span) for j in range(3)] for i in range(n)]
    mesh.espherecentroids = h.tensor_of(centres)
    return mesh, [a / 6 for a in legs_], centres


def phase(cell, cif=None):
    from xrd_simulator.phase import Phase

    return Phase([cell, cell + 1.0, cell + 2.0, 90.0, 90.0, 90.0], "P1", cif)


B0 = {4.0: [[1.5, 0.25, -0.5], [0.0, 1.25, 0.125], [0.0, 0.0, 1.0]], 5.0: [[0.75, -0.25, 0.0], [0.0, 1.5, 0.5], [0.0, 0.0, 1.75]], 6.0: [[1.0, 0.0, 0.25], [0.0, 1.0, 0.5], [0.0, 0.0, 2.0]]}


def reflections(h, hkl=None):
    """Fixed Miller indices; returns the calls made."""
    import numpy as np
    from xfab import tools

    calls = []

    def genhkl_all(unit_cell, sintlmin, sintlmax, sgname=None, **k):
        calls.append((list(unit_cell), sintlmin, sintlmax, sgname))
        return np.array((hkl or HKL)[float(unit_cell[0])], dtype=float).reshape(-1, 3)

    h.patch(tools, "genhkl_all", genhkl_all)
    h.patch(tools, "form_b_mat", lambda cell: np.array(B0[float(cell[0])]))
    return calls


def factors(h, table):
    """Structure factors of the phases with a CIF file, by the first lattice parameter."""
    from xrd_simulator import structure_factors
    from harness.hulls import array

    def batch(miller_indices, unit_cell, *a, **k):
        return array(h, table[float(unit_cell[0])])

    h.patch(structure_factors, "compute_structure_factors_batch", batch)


def beam(h, direction=(1.0, 0.0, 0.0), pol=(0.0, 1.0, 0.0), wavelength=0.5, half=(HUGE, HUGE, HUGE)):
    import numpy as np
    from xrd_simulator.beam import Beam

    v = np.array([[x, y, z] for x in (-half[0], half[0]) for y in (-half[1], half[1]) for z in (-half[2], half[2])])
    return Beam(v, np.array(direction), wavelength, np.array(pol))


def laue_stub(h, answer):
    """The Laue solver reports what `answer` says for its n-th call: a list of (element, plane, time)."""
    import torch
    from xrd_simulator import laue

    real = laue._find_solutions_to_tangens_half_angle_equation
    sig = inspect.signature(real)
    calls = []

    def stub(*a, **k):
        G = torch.asarray(sig.bind(*a, **k).arguments["G_0"])
        if G.ndim == 2:
            G = G[None]
        rows = answer(len(calls), tuple(G.shape))
        calls.append(rows)
        g = torch.tensor([r[0] for r in rows], dtype=torch.int64)
        p = torch.tensor([r[1] for r in rows], dtype=torch.int64)
        t = h.tensor_of([r[2] for r in rows]) if rows else torch.zeros(0)
        return g, p, t, torch.transpose(G, 2, 1)[g, p]

    h.patch(laue, "_find_solutions_to_tangens_half_angle_equation", stub)
    return calls


def factor_stubs(h):
    """The Lorentz, polarisation and Scherrer formulas (P11, P12, P29) replaced by some smooth function of their arguments."""
    import torch
    from xrd_simulator import polycrystal, scattering_factors

    def stub(name, f):
        sig = inspect.signature(getattr(scattering_factors, name))

        def call(*a, **k):
            return f(*(torch.as_tensor(x) for x in sig.bind(*a, **k).arguments.values()))

        h.patch(scattering_factors, name, call)
        if hasattr(polycrystal, name):
            h.patch(polycrystal, name, call)

    w = torch.tensor([3.0, 5.0, 7.0], dtype=torch.float64)
    stub("_lorentz", lambda k_in, k_out, axis: (k_out.reshape(-1, 3) * (w + 2 * k_in + 11 * axis)).sum(dim=1))
    stub("_polarization", lambda k_out, pol: (k_out.reshape(-1, 3) * (5 * w + 3 * pol)).sum(dim=1))
    stub("_scherrer", lambda volume, two_theta, wavelength: 3 * volume + 7 * two_theta + 17 * wavelength)


@harness("P05", functions=FN, stubs=STUB, bounds="4 elements of 2 phases, 5 Laue solutions (any order of elements, all at arbitrary times), rotation axis z, -y or any, any angle, origin and translation (outgoing wave vector not zero), any orientation matrices, sources, volumes and structure factors; two beam directions", time=300, branch_ms=100, max_paths=300, timeout_ms=8000, arc_total=True)
def rows(h):
    """Every row describes one event."""
    import math
    import torch
    from xrd_simulator import scattering_factors
    from xrd_simulator.motion import RigidBodyMotion
    from xrd_simulator.polycrystal import Polycrystal

    axis = h.case("axis", AXES) or h.unit_scalars("axis", 3)
    direction, pol = h.case("beam", [([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]), ([0.0, 0.0, -1.0], [0.0, 1.0, 0.0])])
    order = h.case("order", [[(0, 2), (1, 0), (0, 0)], [(1, 1), (0, 1)], [(0, 0)], []])
    order2 = h.case("second phase", [[(1, 1), (0, 0)], [], [(1, 1)]])
    mesh, volumes, centres = make_mesh(h, 4)
    U = [[[h.real("U%d%d%d" % (e, i, j), -1, 1) for j in range(3)] for i in range(3)] for e in range(4)]
    fre, fim = h.real("fre", 0.1, 10), h.real("fim", -10, 10)
    reflections(h)
    factors(h, {5.0: [[fre, fim], [2.0, 1.0]]})
    ph = [phase(4.0), phase(5.0, "some.cif")]
    pmap = [1, 0, 1, 0]
    members = [[e for e in range(4) if pmap[e] == i] for i in range(2)]
    pc = Polycrystal(mesh, h.tensor_of(U), torch.zeros((3, 3)), ph, pmap)
    b = beam(h, direction, pol)
    angle = h.real("angle", 0.01, 3.14)
    tr = [h.real("tr%d" % i, -50, 50) for i in range(3)]
    org = [h.real("org%d" % i, -50, 50) for i in range(3)]
    m = RigidBodyMotion(h.tensor_of(axis), angle, h.tensor_of(tr), h.tensor_of(org))
    sols = [[(g, p, h.real("t%d%d" % (k, i), 0, 1)) for i, (g, p) in enumerate(o)] for k, o in enumerate((order, order2))]
    rays = []
    kw = 2 * math.pi / b.wavelength
    k_in = [kw * x for x in direction]
    for k in range(2):
        for g, p, t in sols[k]:
            c = [4.0, 5.0][k]
            g0 = h.matvec(U[members[k][g]], h.matvec(B0[c], HKL[c][p]))
            G = h.rodrigues(axis, angle * t, g0)
            K = [G[j] + k_in[j] for j in range(3)]
            h.assume(h.gt(h.dot(K, K), 0.01))
            rays.append((g0, G, K))
    laue_stub(h, lambda n, shape: sols[n])
    if sum(map(len, sols)) != 1 or axis is not AXES[0] or direction[0] != 1.0:
        factor_stubs(h)
    out = pc.diffract(b, m, verbose=False)
    got = h.vals(out["peaks"]) if out["peaks"].shape[0] else []
    h.check(list(out["columns"]) == COLUMNS, "column names")
    h.check(out["peaks"].shape[1] == 25, "one column per name")
    want = [(k,) + s for k in range(2) for s in sols[k]]
    h.check(len(got) == len(want), "one row per illuminated solution")
    F2 = {0: [1.0, 1.0, 1.0], 1: [fre * fre + fim * fim, 5.0]}
    for i, (row, (k, g, p, t)) in enumerate(zip(got, want)):
        e = members[k][g]
        hkl = HKL[[4.0, 5.0][k]][p]
        h.check_eq(row[0:5], [e, k] + hkl, "element, phase and Miller indices")
        h.check_eq(row[5], F2[k][p], "structure factor")
        h.check_eq(row[6], t, "time")
        g0, G, K = rays[i]
        h.check_eq(row[7:10], g0, "G0")
        h.check_eq(row[10:13], G, "G")
        h.check_eq(row[13:16], K, "K_out")
        c = h.rodrigues(axis, angle * t, [centres[e][j] - org[j] for j in range(3)])
        h.check_eq(row[16:19], [c[j] + org[j] + t * tr[j] for j in range(3)], "source")
        h.check_eq(row[21], volumes[e], "volume")
        K1 = h.tensor_of([row[13:16]])
        h.check_eq(row[19], h.vals(scattering_factors._lorentz(b.wave_vector, K1, m.rotation_axis).reshape(1))[0], "Lorentz factor of K_out")
        h.check_eq(row[20], h.vals(scattering_factors._polarization(K1, b.polarization_vector).reshape(1))[0], "polarisation factor of K_out")
        tt = h.acos(h.dot(direction, row[13:16]) / h.norm(row[13:16]))
        h.check_eq(row[22], tt, "2theta")
        h.check_eq(row[23], h.vals(scattering_factors._scherrer(h.tensor_of([row[21]]), h.tensor_of([row[22]]), b.wavelength))[0], "Scherrer width")
        h.check_eq(row[24], i, "peak index")
