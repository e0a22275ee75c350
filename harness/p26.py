import math

from engine.harness import harness

FN = ["structure_factors.compute_structure_factors_batch", "structure_factors._sintl_batch", "structure_factors._form_factors_batch", "structure_factors._uij_to_betaij"]
STUB = ["xfab's CIF reader, space group and form factor tables return the harness's symbolic atoms, operations and coefficients"]
KW = dict(time=400, max_paths=500, timeout_ms=10000)

# identity, a threefold axis of a hexagonal cell, an inversion
ROT = [[[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], [[0.0, -1.0, 0], [1.0, -1.0, 0], [0, 0, 1.0]], [[-1.0, 0, 0], [0, -1.0, 0], [0, 0, -1.0]]]


class Atom:
    pass


def atom(h, i, kind, element):
    a = Atom()
    a.label, a.atomtype, a.adp_type = "A%d" % i, element, kind
    a.pos = [h.real("x%d%d" % (i, k), -1, 1) for k in range(3)]
    a.occ = h.real("occ%d" % i, 0, 1)
    a.symmulti = h.real("mult%d" % i, 1, 8)
    a.adp = h.real("U%d" % i, 0, 0.1) if kind == "Uiso" else [h.real("U%d%d" % (i, k), -0.1, 0.1) for k in range(6)] if kind == "Uani" else None
    return a


def setup(h, kinds, elements, nsym, dispersion):
    from xrd_simulator import structure_factors as SF

    atoms = [atom(h, i, k, e) for i, (k, e) in enumerate(zip(kinds, elements))]
    rot = [ROT[s] for s in range(nsym)]
    trans = [[h.real("t%d%d" % (s, k), -1, 1) for k in range(3)] if s else [0.0, 0.0, 0.0] for s in range(nsym)]
    disp = {}
    for e in sorted(set(elements)):
        d = dispersion[e]
        if d == "given":
            disp[e] = [h.real("f1" + e, -5, 5), h.real("f2" + e, -5, 5)]
        elif d == "none":
            disp[e] = None
    form = {e: [1.0 + n + 0.5 * j for j in range(4)] + [0.2 * j + 0.1 * n for j in range(4)] + [0.3 + n] for n, e in enumerate(sorted(set(elements)))}

    class Factory:
        def __init__(self):
            self.atomlist = type("L", (), {})()
            self.atomlist.atom, self.atomlist.dispersion, self.atomlist.sgname, self.atomlist.cell = [], {}, None, None

        def CIFread(self, ciffile=None, cifblkname=None, cifblk=None):
            if cifblk != "block":
                raise AssertionError("another CIF block")
            self.atomlist.atom, self.atomlist.dispersion = atoms, disp

    class Group:
        def __init__(self, sgno=None, sgname=None, cell_choice="standard"):
            if sgname != "P 3":
                raise AssertionError("another space group")
            self.nsymop, self.rot, self.trans = nsym, rot, trans

    h.patch(SF.xfab_structure, "build_atomlist", Factory)
    h.patch(SF.utils, "_cif_open", lambda path: "block")
    h.patch(SF.xfab_sg, "sg", Group)
    h.patch(SF.atomlib, "formfactor", form)
    return atoms, rot, trans, disp, form


def unit_cell(h, hkls):
    cell = [h.real(n, 2, 10) for n in "abc"] + [h.real(n, 60, 100) for n in ("alpha", "beta", "gamma")]
    # a cell with a volume
    ca, cb, cg = [h.cos(x * h.pi / 180) for x in cell[3:]]
    h.assume(h.gt(1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg, 0.01))
    a, b, c = cell[:3]
    for x, y, z in hkls:  # follows from the volume: the reciprocal metric is positive definite
        p = (x * x / (a * a)) * (1 - ca * ca) + (y * y / (b * b)) * (1 - cb * cb) + (z * z / (c * c)) * (1 - cg * cg)
        p = p + 2 * x * y * (ca * cb - cg) / (a * b) + 2 * x * z * (ca * cg - cb) / (a * c) + 2 * y * z * (cb * cg - ca) / (b * c)
        h.assume(h.gt(p, 0))
    return cell


def reciprocal(h, cell):
    """Metric tensor of the reciprocal lattice: the inverse of the direct one."""
    ca, cb, cg = [h.cos(x * h.pi / 180) for x in cell[3:]]
    C = [[1 - ca * ca, ca * cb - cg, ca * cg - cb], [ca * cb - cg, 1 - cb * cb, cb * cg - ca], [ca * cg - cb, cb * cg - ca, 1 - cg * cg]]
    det = 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg
    return [[C[i][j] / (cell[i] * cell[j] * det) for j in range(3)] for i in range(3)]


def expected(h, hkl, cell, atoms, rot, trans, disp, form):
    Gs = reciprocal(h, cell)
    stl2 = h.dot(hkl, h.matvec(Gs, hkl)) / 4
    ca, cb, cg = [h.cos(x * h.pi / 180) for x in cell[3:]]
    v = h.sqrt(1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg)
    star = [h.sin(cell[3 + i] * h.pi / 180) / (cell[i] * v) for i in range(3)]  # lengths of the reciprocal axes
    re = im = 0
    for a in atoms:
        c = form[a.atomtype]
        f = c[8]
        for j in range(4):
            f = f + c[j] * h.exp(-c[4 + j] * stl2)
        d = disp.get(a.atomtype)
        f1, f2 = d if d is not None else (0.0, 0.0)
        pop = a.occ * a.symmulti / len(rot)
        for R, t in zip(rot, trans):
            x = [v + w for v, w in zip(h.matvec(R, a.pos), t)]
            arg = 2 * h.pi * h.dot(hkl, x)
            if a.adp_type == "Uiso":
                damp = h.exp(-8 * h.pi * h.pi * a.adp * stl2)
            elif a.adp_type == "Uani":
                U = a.adp
                M = [[U[0], U[5], U[4]], [U[5], U[1], U[3]], [U[4], U[3], U[2]]]
                g = h.matvec([[R[i][j] for i in range(3)] for j in range(3)], hkl)  # R^T h
                g = [g[i] * star[i] for i in range(3)]
                damp = h.exp(-2 * h.pi**2 * h.dot(g, h.matvec(M, g)))
            else:
                damp = 1
            re = re + pop * damp * ((f + f1) * h.cos(arg) - f2 * h.sin(arg))
            im = im + pop * damp * ((f + f1) * h.sin(arg) + f2 * h.cos(arg))
    return re, im


def compare(h, kinds, elements, nsym, dispersion, hkls):
    from xrd_simulator.structure_factors import compute_structure_factors_batch

    cell = unit_cell(h, hkls)
    model = setup(h, kinds, elements, nsym, dispersion)
    import numpy as np

    out = compute_structure_factors_batch(np.array(hkls), cell, "P 3", "some.cif")
    h.check(tuple(out.shape) == (len(hkls), 2), "shape")
    v = h.vals(out)
    for i, hkl in enumerate(hkls):
        re, im = expected(h, hkl, cell, *model)
        h.check_eq(v[i][0], re, "real part of reflection %d" % i)
        h.check_eq(v[i][1], im, "imaginary part of reflection %d" % i)


@harness("P26", functions=FN, stubs=STUB, bounds="2 atoms of every combination of displacement kinds at any position; 2 symmetry operations with any translation; dispersion given, missing or empty; 2 reflections; any cell", **KW)
def kinds(h):
    """Any mixture and order of displacement kinds."""
    k = h.case("kinds", [(a, b) for a in ("Uiso", "Uani", None) for b in ("Uiso", "Uani", None)])
    d = h.case("dispersion", [("given", "none"), ("missing", "given")])
    compare(h, k, ["Si", "O"], 2, {"Si": d[0], "O": d[1]}, [[1, -2, 3], [0, 1, 1]])


@harness("P26", functions=FN, stubs=STUB, bounds="1 atom of every displacement kind, 1 to 3 symmetry operations, 1 reflection with any (also non-integer) Miller indices, any cell", **KW)
def indices(h):
    """Any Miller indices."""
    from harness.hulls import array
    from xrd_simulator.structure_factors import compute_structure_factors_batch

    k = h.case("kind", ["Uiso", "Uani", None])
    n = h.case("operations", [3, 1, 2])
    hkl = [h.real(c, -5, 5) for c in "hkl"]
    cell = unit_cell(h, [hkl])
    model = setup(h, [k], ["Si"], n, {"Si": "given"})
    out = compute_structure_factors_batch(array(h, [hkl]), cell, "P 3", "some.cif")
    re, im = expected(h, hkl, cell, *model)
    v = h.vals(out)
    h.check_eq(v[0][0], re, "real part")
    h.check_eq(v[0][1], im, "imaginary part")


@harness("P26", functions=FN, stubs=STUB, bounds="3 atoms of two elements in three orders of displacement kinds, 3 symmetry operations, 3 reflections, any cell", **KW)
def three(h):
    """Three atoms, two of the same element."""
    k = h.case("kinds", [("Uani", "Uiso", "Uani"), (None, "Uani", "Uiso"), ("Uiso", "Uiso", None)])
    compare(h, k, ["O", "Si", "O"], 3, {"Si": "none", "O": "given"}, [[1, -2, 3], [0, 1, 1], [2, 0, 0]])
