from engine.harness import harness
from harness.hulls import array

FN = ["mesh.TetraMesh.generate_mesh_from_vertices", "mesh.TetraMesh._expand_mesh_data", "mesh.TetraMesh._compute_mesh_normals", "mesh.TetraMesh._compute_mesh_volumes", "utils._compute_tetrahedra_volumes"]
STUB = ["the bounding spheres (P22) are not computed"]


def build(h, coord, enod, spheres=False):
    import numpy as np
    import torch
    from xrd_simulator.mesh import TetraMesh

    if not spheres:
        h.patch(TetraMesh, "_compute_mesh_spheres", lambda self, c, e: (torch.ones(len(e), dtype=torch.float64), torch.zeros((len(e), 3), dtype=torch.float64)))
    return TetraMesh.generate_mesh_from_vertices(array(h, coord), np.array(enod))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def det(h, v):
    return h.dot(h.crossp(sub(v[1], v[0]), sub(v[2], v[0])), sub(v[3], v[0]))


def geometry(h, mesh, coord, enod, signs):
    """All derived quantities of every element; signs are those of the determinants."""
    from xrd_simulator import utils

    faces = [[int(i) for i in f] for e in mesh.efaces.tolist() for f in e]
    normals = h.vals(mesh.enormals)
    cents = []
    h.check(len(faces) == 4 * len(enod), "four faces per element")
    for k, e in enumerate(enod):
        v = [coord[i] for i in e]
        mine = faces[4 * k : 4 * k + 4]
        h.check(sorted(tuple(sorted(f)) for f in mine) == sorted(tuple(sorted(set(e) - {i})) for i in e), "faces of element %d" % k)
        for f, n in zip(mine, normals[k]):
            other = next(i for i in e if i not in f)
            a, b = sub(coord[f[1]], coord[f[0]]), sub(coord[f[2]], coord[f[0]])
            h.check(h.eq(h.dot(n, n), 1), "unit normal")
            h.check(h.and_(h.eq(h.dot(n, a), 0), h.eq(h.dot(n, b), 0)), "orthogonal to the face")
            h.check(h.lt(h.dot(n, sub(coord[other], coord[f[0]])), 0), "outward")
        c = [sum(x[i] for x in v) / 4 for i in range(3)]
        cents.append(c)
        h.check_eq(mesh.ecentroids[k], c, "centroid of element %d" % k)
        vol = det(h, v) / 6 * signs[k]
        h.check_eq(mesh.evolumes[k], vol, "volume of element %d" % k)
    h.check_eq(mesh.centroid, [sum(c[i] for c in cents) / len(cents) for i in range(3)], "mesh centroid")
    h.check_eq(utils._compute_tetrahedra_volumes(mesh.coord[mesh.enod]), [det(h, [coord[i] for i in e]) / 6 * s for e, s in zip(enod, signs)], "volumes used for diffraction")
    h.check_eq(mesh.coord, coord, "node coordinates")
    h.check(mesh.enod.tolist() == [list(e) for e in enod], "connectivity")
    h.check(mesh.number_of_elements == len(enod), "number of elements")


def sign(h, v):
    """Sign of the determinant; flat elements are excluded."""
    d = det(h, v)
    pos = h.decide(h.gt(d, 0, exact=True))
    h.assume(h.gt(d * (1 if pos else -1), 1e-3, exact=True))
    for f in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)):
        n = h.crossp(sub(v[f[1]], v[f[0]]), sub(v[f[2]], v[f[0]]))
        if not h.concrete and h.check(h.or_(*[h.ne(x, 0) for x in n]), "the faces of an element that is not flat have an area"):
            h.assume(h.gt(h.dot(n, n), 0))
    return 1 if pos else -1


@harness("P21", functions=FN, bounds="1 element of any position, shape, size and either orientation with its first edge along an axis and its first face in a coordinate plane (every tetrahedron is one of these, rotated), |det| > 1e-3", stubs=STUB, time=200, fork_where=True, branch_ms=100)
def one(h):
    """A single tetrahedron."""
    p = [h.real("p%d" % j, -20, 20) for j in range(3)]
    a, c = h.real("a", 0.01, 20), h.real("c", 0.01, 20)
    b, d, e, f = [h.real(n, -20, 20) for n in "bdef"]
    rel = [[0, 0, 0], [a, 0, 0], [b, c, 0], [d, e, f]]
    perm = h.case("axes", [(0, 1, 2), (2, 0, 1), (1, 0, 2)])
    coord = [[p[j] + r[perm[j]] for j in range(3)] for r in rel]
    s = sign(h, coord)
    mesh = build(h, coord, [[0, 1, 2, 3]])
    geometry(h, mesh, coord, [[0, 1, 2, 3]], [s])


BASE = [[0.0, 0.0, 0.0], [4.0, 0.0, 0.0], [0.0, 5.0, 0.0], [0.5, 0.25, 3.0], [-3.0, -2.0, -4.0], [8.0, 8.0, 9.0]]
ELEMENTS = [[[0, 1, 2, 3], [4, 2, 1, 0], [5, 3, 2, 1]], [[3, 2, 1, 0], [1, 4, 0, 2], [1, 2, 5, 3]], [[5, 1, 2, 3]]]


@harness("P21", functions=FN, bounds="meshes of 1 and 3 elements sharing nodes, in three node orders, with one arbitrary node (any of the six) in [-20,20]^3, |det| > 1e-3", stubs=STUB, time=200, fork_where=True, branch_ms=100)
def several(h):
    """Elements that share nodes, whatever the order of the nodes: each element has its own values."""
    enod = h.case("elements", ELEMENTS)
    k = h.case("node", [0, 2, 3, 5])
    coord = [list(v) for v in BASE]
    coord[k] = [h.real("x%d" % j, -20, 20) for j in range(3)]
    signs = [sign(h, [coord[i] for i in e]) for e in enod]
    mesh = build(h, coord, enod)
    geometry(h, mesh, coord, enod, signs)
