import itertools

from engine.harness import harness
from harness.hulls import array

FN = ["mesh.TetraMesh.translate", "mesh.TetraMesh.rotate", "mesh.TetraMesh.update", "mesh.TetraMesh.generate_mesh_from_vertices", "motion.RigidBodyMotion.__call__", "motion.RigidBodyMotion.rotate", "motion._RodriguezRotator"]
STUB = ["the bounding spheres (P22) of the starting mesh are replaced by (1, mean of the nodes)"]
BASE = [[0.0, 0.0, 0.0], [4.0, 0.0, 0.0], [0.0, 5.0, 0.0], [0.5, 0.25, 3.0], [-3.0, -2.0, -4.0]]
Z, Y = [0.0, 0.0, 1.0], [0.0, -1.0, 0.0]


def start(h, enod, coord):
    import numpy as np
    import torch
    from xrd_simulator.mesh import TetraMesh

    def spheres(self, c, e):
        v = torch.as_tensor(c)[torch.as_tensor(e).long()]
        return torch.ones(len(v), dtype=torch.float64), v.mean(dim=1)

    h.patch(TetraMesh, "_compute_mesh_spheres", spheres)
    return TetraMesh.generate_mesh_from_vertices(array(h, coord), np.array(enod))


def operation(h, kind, axis, n):
    """Draws the arguments of one operation; returns how it acts on the mesh and on (point, is_direction)."""
    from xrd_simulator.motion import RigidBodyMotion

    if kind == "translate":
        t = [h.real("t%d%d" % (n, j), -20, 20) for j in range(3)]
        given = array(h, t) if h.flag("as numpy%d" % n) else h.tensor_of(t)
        return lambda m: m.translate(given), lambda p, d: p if d else [p[j] + t[j] for j in range(3)]
    angle = h.real("a%d" % n, 0.01, 3.14)
    if kind == "rotate":
        return lambda m: m.rotate(array(h, axis), angle), lambda p, d: h.rodrigues(axis, angle, p)
    tr = [h.real("m%d%d" % (n, j), -20, 20) for j in range(3)]
    org = [h.real("o%d%d" % (n, j), -20, 20) for j in range(3)]
    time = h.real("time%d" % n, 0, 1)
    motion = RigidBodyMotion(h.tensor_of(axis), angle, h.tensor_of(tr), h.tensor_of(org))

    def act(p, d):
        if d:
            return h.rodrigues(axis, angle * time, p)
        q = h.rodrigues(axis, angle * time, [p[j] - org[j] for j in range(3)])
        return [q[j] + org[j] + time * tr[j] for j in range(3)]

    return lambda m: m.update(motion, time), act


def state(h, m):
    return {k: h.vals(getattr(m, k)) for k in ("coord", "ecentroids", "espherecentroids", "centroid", "enormals", "eradius", "evolumes")}


def follow(h, mesh, kinds, axes):
    before = state(h, mesh)
    enod, faces = mesh.enod.tolist(), mesh.efaces.tolist()
    want = {k: [list(p) for p in before[k]] for k in ("coord", "ecentroids", "espherecentroids")}
    want["centroid"] = list(before["centroid"])
    want["enormals"] = [[list(n) for n in e] for e in before["enormals"]]
    for n, (kind, axis) in enumerate(zip(kinds, axes)):
        run, act = operation(h, kind, axis, n)
        run(mesh)
        for k in ("coord", "ecentroids", "espherecentroids"):
            want[k] = [act(p, False) for p in want[k]]
        want["centroid"] = act(want["centroid"], False)
        want["enormals"] = [[act(p, True) for p in e] for e in want["enormals"]]
        for k, v in want.items():
            h.check_eq(getattr(mesh, k), v, "%s after %s" % (k, " ".join(kinds[: n + 1])))
    cents = []
    for e, ids in enumerate(enod):
        c = [sum(want["coord"][i][j] for i in ids) / 4 for j in range(3)]
        cents.append(c)
        h.check_eq(mesh.ecentroids[e], c, "centroid of the moved nodes")
    h.check_eq(mesh.centroid, [sum(c[j] for c in cents) / len(cents) for j in range(3)], "mesh centroid of the moved nodes")
    for k in ("eradius", "evolumes"):
        h.check_eq(getattr(mesh, k), before[k], "%s unchanged" % k)
    h.check(mesh.enod.tolist() == enod and mesh.efaces.tolist() == faces, "connectivity unchanged")


KINDS = ["translate", "rotate", "update"]


@harness("P23", functions=FN, stubs=STUB, bounds="2 elements sharing 3 nodes, one node coordinate arbitrary; every sequence of 2 operations (translate, rotate, update with arbitrary vectors, angles, origins and times; rotations about z, then -y)", time=300, branch_ms=100, max_paths=600, timeout_ms=8000)
def pairs(h):
    """Every pair of operations."""
    kinds = h.case("operations", list(itertools.product(KINDS, repeat=2)))
    coord = [list(v) for v in BASE]
    coord[3][2] = h.real("x", 1, 9)
    mesh = start(h, [[0, 1, 2, 3], [4, 2, 1, 0]], coord)
    follow(h, mesh, kinds, [Z, Y])


@harness("P23", functions=FN, stubs=STUB, bounds="sequences of 3 operations mixing all three kinds, one element, rotations about z, -y and z", time=300, branch_ms=100, max_paths=600, timeout_ms=8000)
def triples(h):
    """Longer histories."""
    options = list(itertools.permutations(KINDS)) + [("update", "update", "translate"), ("translate", "update", "translate"), ("rotate", "translate", "rotate"), ("translate", "translate", "update")]
    kinds = h.case("operations", options)
    mesh = start(h, [[0, 1, 2, 3]], BASE[:4])
    follow(h, mesh, kinds, [Z, Y, Z])


@harness("P23", functions=FN, stubs=STUB, bounds="one rotation or update about an arbitrary unit axis, then a translation; one element", time=300, branch_ms=100, max_paths=600, timeout_ms=8000)
def any_axis(h):
    """Arbitrary rotation axis."""
    kinds = h.case("operations", [("rotate", "translate"), ("update", "translate")])
    axis = h.unit_scalars("axis", 3)
    mesh = start(h, [[0, 1, 2, 3]], BASE[:4])
    follow(h, mesh, kinds, [axis, axis])


@harness("P23", functions=FN, stubs=STUB, bounds="all histories of 3 operations (27), two elements with an arbitrary node coordinate", tiers=("thorough",), time=800, branch_ms=100, max_paths=3000, timeout_ms=8000)
def all_triples(h):
    """Every history of three operations."""
    kinds = h.case("operations", list(itertools.product(KINDS, repeat=3)))
    coord = [list(v) for v in BASE]
    coord[3][2] = h.real("x", 1, 9)
    mesh = start(h, [[0, 1, 2, 3], [4, 2, 1, 0]], coord)
    follow(h, mesh, kinds, [Z, Y, Z])
