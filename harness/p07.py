import itertools

from engine.harness import harness
from harness.p05 import FN, HKL, B0, beam, factor_stubs, factors, laue_stub, make_mesh, phase, reflections
from harness.p24 import lattice_stub, Z

STUB = ["xfab.tools returns fixed Miller indices and reciprocal lattices", "compute_structure_factors_batch (P26) returns arbitrary numbers", "the Laue solver (P03, P04) reports every element and plane it is given, at arbitrary times", "strained B matrices (P17), Lorentz, polarisation and Scherrer factors (P11, P12, P29) are simple functions of their arguments"]
CELLS = [4.0, 5.0, 6.0]


def fork_F(h, name):
    """Structure factor: vanishing, or any other with |F|^2 >= 0.01."""
    if h.flag(name + " vanishes"):
        return [0.0, 0.0], "vanishes"
    re, im = h.real(name + "re", -30, 30), h.real(name + "im", -30, 30)
    h.assume(h.gt(re * re + im * im, 0.01))
    return [re, im], re * re + im * im


def run(h, pmap, phases, F2, n, give_map=True, kind=0):
    """Diffract with every plane of every element reported once; compare the identity columns."""
    import numpy as np
    import torch
    from xrd_simulator.motion import RigidBodyMotion
    from xrd_simulator.polycrystal import Polycrystal

    mesh, volumes, centres = make_mesh(h, n, legs=False)
    U = [[[h.real("U%d%d%d" % (e, i, j), -1, 1) for j in range(3)] for i in range(3)] for e in range(n)]
    reflections(h)
    lattice_stub(h)
    factor_stubs(h)
    m = None if not give_map else [list(pmap), np.array(pmap), torch.tensor(pmap)][kind]
    given = phases if len(phases) > 1 or give_map else phases[0]
    eps = [[[0.001 * (e + 1) if i == j else 0.0 for j in range(3)] for i in range(3)] for e in range(n)]
    pc = Polycrystal(mesh, h.tensor_of(U), h.tensor_of(eps), given, m)
    angle = h.real("angle", 0.1, 3)
    motion = RigidBodyMotion(h.tensor_of(Z), angle, torch.zeros(3))
    tt = [[h.real("t%d%d" % (g, p), 0, 1) for p in range(3)] for g in range(n)]
    want = []
    for k, ph in enumerate(phases):
        c = float(ph.unit_cell[0])
        members = [e for e in range(n) if pmap[e] == k]
        kept = [i for i in range(len(HKL[c])) if F2[k] is None or not isinstance(F2[k][i], str)]
        for g, e in enumerate(members):
            for p, i in enumerate(kept):
                t = tt[g][p]
                B = [[7 * eps[e][a][b] + 3 * U[e][a][b] + B0[c][a][b] for b in range(3)] for a in range(3)]
                g0 = h.matvec(U[e], h.matvec(B, HKL[c][i]))
                G = h.rodrigues(Z, angle * t, g0)
                K = [G[0] + 12.566370614359172, G[1], G[2]]
                h.assume(h.gt(h.dot(K, K), 0.01))
                want.append([e, k] + HKL[c][i] + [1.0 if F2[k] is None else F2[k][i], t] + g0)
    # a phase without elements may or may not be handed to the solver, so the answer depends on the shape only
    laue_stub(h, lambda i, shape: [(g, p, tt[g][p]) for g in range(shape[0]) for p in range(shape[2])])
    out = pc.diffract(beam(h), motion, verbose=False)
    got = h.vals(out["peaks"]) if out["peaks"].shape[0] else []
    if h.check(len(got) == len(want), "number of rows"):
        for r, w in zip(got, want):
            h.check_eq(r[:10], w, "element, phase, Miller indices, |F|^2, time and G0")


MAPS = [[0, 1, 2, 0], [2, 2, 0, 2], [1, 1, 1, 1], [2, 1, 0, 1]]


@harness("P07", functions=FN, stubs=STUB, bounds="4 elements, 3 phases (two with a CIF file), four phase maps including phases without elements, list/numpy/torch maps, any orientation matrices; fixed non-vanishing pattern with any F", time=300, branch_ms=100, max_paths=300, timeout_ms=8000, arc_total=True)
def maps(h):
    """Phase maps."""
    pmap = h.case("map", MAPS)
    kind = h.case("kind of map", [0, 1, 2])
    swap = h.flag("phases in another order")
    cells = [4.0, 6.0, 5.0] if swap else [4.0, 5.0, 6.0]
    tables = {5.0: [[h.real("a%d" % i, 0.1, 9), h.real("b%d" % i, -9, 9)] for i in range(2)], 6.0: [[h.real("c0", -9, -0.1), h.real("d0", -9, 9)]]}
    factors(h, tables)
    F2 = [None if c == 4.0 else [f[0] * f[0] + f[1] * f[1] for f in tables[c]] for c in cells]
    for f in F2[1] + F2[2]:
        h.assume(h.gt(f, 0.005))
    run(h, pmap, [phase(c, None if c == 4.0 else "x%d.cif" % c) for c in cells], F2, 4, kind=kind)


@harness("P07", functions=FN, stubs=STUB, bounds="2 elements, 2 phases with CIF files and 3 resp. 2 reflections, each either vanishing or with any |F|^2 > 0.01", time=300, branch_ms=100, max_paths=300, timeout_ms=8000, arc_total=True)
def vanishing(h):
    """Every pattern of vanishing structure factors."""
    pmap = h.case("map", [[0, 1], [1, 1], [1, 0]])
    tables, F2 = {}, []
    for c in (4.0, 5.0):
        fs = [fork_F(h, "F%d%d" % (c, i)) for i in range(len(HKL[c]))]
        tables[c] = [f[0] for f in fs]
        F2.append([f[1] for f in fs])
    factors(h, tables)
    run(h, pmap, [phase(4.0, "a.cif"), phase(5.0, "b.cif")], F2, 2)


@harness("P07", functions=FN, stubs=STUB, bounds="1 or 3 elements of one phase, with the map omitted or of zeros, with or without CIF file", time=300, branch_ms=100, max_paths=300, timeout_ms=8000, arc_total=True)
def single(h):
    """A single phase."""
    n = h.case("elements", [1, 3])
    cif = h.flag("cif")
    give = h.flag("map given")
    F2 = [None]
    if cif:
        fs = [[h.real("a%d" % i, 0.1, 9), h.real("b%d" % i, -9, 9)] for i in range(3)]
        factors(h, {4.0: fs})
        F2 = [[f[0] * f[0] + f[1] * f[1] for f in fs]]
        for f in F2[0]:
            h.assume(h.gt(f, 0.005))
    run(h, [0] * n, [phase(4.0, "a.cif" if cif else None)], F2, n, give_map=give, kind=1)


@harness("P07", functions=["polycrystal.Polycrystal.__init__"], stubs=STUB[:1], bounds="two phases without a map", time=60)
def refused(h):
    """Several phases need a map."""
    import torch
    from xrd_simulator.polycrystal import Polycrystal

    mesh, _, _ = make_mesh(h, 2)
    reflections(h)
    U = h.tensor_of([[h.real("u%d%d" % (i, j), -1, 1) for j in range(3)] for i in range(3)])
    h.check_raises(ValueError, lambda: Polycrystal(mesh, U, torch.zeros(3, 3), [phase(4.0), phase(5.0)], None), "a map is needed")
