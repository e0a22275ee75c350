from engine.harness import harness
from harness.p05 import FN as FN5, HKL, beam, factor_stubs, laue_stub, make_mesh, phase, reflections
from harness.p24 import Z

FN = ["polycrystal.Polycrystal.diffract", "polycrystal.Polycrystal._compute_peaks", "beam.Beam.set_beam_vertices", "beam.Beam._contains", "motion.RigidBodyMotion.__call__"]
STUB = ["xfab.tools returns fixed Miller indices and reciprocal lattices", "the Laue solver (P03, P04) returns fixed elements and planes at arbitrary times", "Lorentz, polarisation and Scherrer factors are simple functions of their arguments", "qhull's face equations of the (concrete) beam are used as they are"]
GAP = 1e-3


def faces_of(kind):
    """Face inequalities n.x < d and the vertices of a convex beam."""
    if kind == "box":
        v = [[x, y, z] for x in (-1e4, 1e4) for y in (-3.0, 3.0) for z in (-2.0, 2.0)]
        return v, [([0, 1, 0], 3), ([0, -1, 0], 3), ([0, 0, 1], 2), ([0, 0, -1], 2), ([1, 0, 0], 1e4), ([-1, 0, 0], 1e4)]
    if kind == "wedge":
        # right triangular prism: y > -1, z > -2, 4 y + 3 z < 20, |x| < 50
        v = [[x, y, z] for x in (-50.0, 50.0) for y, z in ((-1.0, -2.0), (6.5, -2.0), (-1.0, 8.0))]
        return v, [([0, -1, 0], 1), ([0, 0, -1], 2), ([0, 0.8, 0.6], 4), ([1, 0, 0], 50), ([-1, 0, 0], 50)]


def lit(h, faces, p):
    """Inside the beam; within GAP of a face is left out."""
    for n, d in faces:
        x = h.dot(n, p) - d
        if h.decide(h.gt(x, 0)):
            h.assume(h.gt(x, GAP))
            return False
        h.assume(h.lt(x, -GAP))
    return True


def run(h, kind, sols, phases=1):
    import numpy as np
    import torch
    from xrd_simulator.beam import Beam
    from xrd_simulator.motion import RigidBodyMotion
    from xrd_simulator.polycrystal import Polycrystal

    mesh, volumes, centres = make_mesh(h, 3, legs=False, span=20)
    reflections(h)
    factor_stubs(h)
    v, faces = faces_of(kind)
    b = Beam(np.array(v), np.array([1.0, 0.0, 0.0]), 0.5, np.array([0.0, 1.0, 0.0]))
    angle = h.real("angle", 0.01, 3.14)
    tr = [h.real("tr%d" % i, -20, 20) for i in range(3)]
    org = [h.real("org%d" % i, -20, 20) for i in range(3)]
    ts = [[h.real("t%d%d" % (k, i), 0, 1) for i in range(len(s))] for k, s in enumerate(sols)]
    pmap = [0, 0, 0] if phases == 1 else [1, 0, 1]
    members = [[e for e in range(3) if pmap[e] == k] for k in range(phases)]
    want = []
    for k, s in enumerate(sols):
        for i, (g, p) in enumerate(s):
            e, t = members[k][g], ts[k][i]
            q = h.rodrigues(Z, angle * t, [centres[e][j] - org[j] for j in range(3)])
            q = [q[j] + org[j] + t * tr[j] for j in range(3)]
            if lit(h, faces, q):
                want.append([e, k] + HKL[[4.0, 5.0][k]][p] + [1.0, t])
    pc = Polycrystal(mesh, torch.eye(3, dtype=torch.float64), torch.zeros(3, 3), [phase(4.0), phase(5.0)][:phases], pmap)
    laue_stub(h, lambda n, shape: [(g, p, ts[n][i]) for i, (g, p) in enumerate(sols[n])])
    m = RigidBodyMotion(h.tensor_of(Z), angle, h.tensor_of(tr), h.tensor_of(org))
    out = pc.diffract(b, m, verbose=False)
    got = h.vals(out["peaks"]) if out["peaks"].shape[0] else []
    if h.check(len(got) == len(want), "number of illuminated solutions"):
        for i, (r, w) in enumerate(zip(got, want)):
            h.check_eq(r[:7], w, "the illuminated solutions")
            h.check_eq(r[24], i, "peak index")


KW = dict(functions=FN, stubs=STUB, time=300, branch_ms=100, max_paths=500, timeout_ms=8000, arc_total=True)


@harness("P06", bounds="3 elements with arbitrary source positions, 3 solutions (one element twice), rectangular beam, rotation about z by any angle with any origin and translation; sources closer than 0.001 to the beam's surface left out", **KW)
def box(h):
    """Rectangular beam."""
    run(h, "box", [[(0, 1), (2, 0), (0, 2)]])


@harness("P06", bounds="as `box`, with two phases and a wedge-shaped beam", **KW)
def wedge(h):
    """Oblique beam faces, two phases."""
    run(h, "wedge", [[(0, 1)], [(1, 0), (0, 1)]], phases=2)
