from engine.harness import harness

B2E, E2B, LAB = "utils._b_to_epsilon", "utils._epsilon_to_b", "utils._lab_strain_to_B_matrix"


def upper(h, name, lo=0.3, hi=3.0):
    """Any upper triangular matrix with positive diagonal (scalars)."""
    d = [h.real("%s%d%d" % (name, i, i), lo, hi) for i in range(3)]
    o = [h.real("%s%s" % (name, k), -2, 2) for k in ("01", "02", "12")]
    return [[d[0], o[0], o[1]], [0.0, d[1], o[2]], [0.0, 0.0, d[2]]]


def mm(h, a, b):
    return [[h.dot(a[i], [b[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]


def tr(a):
    return [list(r) for r in zip(*a)]


# a second, fixed strain whose numbers are exact
F2 = [[1.25, 0.25, -0.5], [0.0, 0.75, 0.125], [0.0, 0.0, 1.5]]


def strain2():
    C = [[sum(F2[k][i] * F2[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return [[(C[i][j] - (i == j)) / 2 for j in range(3)] for i in range(3)]


def know_feasible(h, F, C):
    """C = F^T F is positive definite: the path learns the signs of its invariants."""
    h.nonneg(C[0][0] + C[1][1] + C[2][2], [x for r in F for x in r if not isinstance(x, float)])
    pairs = [(0, 1), (0, 2), (1, 2)]
    minors = [F[i][k] * F[j][l] - F[i][l] * F[j][k] for i, j in pairs for k, l in pairs]
    h.nonneg(sum(C[i][i] * C[j][j] - C[i][j] * C[j][i] for i, j in pairs), minors)


def strain_of(h, F):
    C = mm(h, tr(F), F)
    return C, [[(C[i][j] - (1 if i == j else 0)) / 2 for j in range(3)] for i in range(3)]


@harness("P25", functions=[E2B], bounds="any strain given by its deformation gradient (upper triangular, diagonal in [0.3,3], off-diagonal in [-2,2]), any such reference lattice; single and batch of 2", time=200)
def to_lattice(h):
    """F = B0 B^-1 is upper triangular with positive diagonal and F^T F = I + 2*strain."""
    import torch
    from xrd_simulator.utils import _epsilon_to_b

    F = upper(h, "F")
    C, e = strain_of(h, F)
    know_feasible(h, F, C)
    B0 = upper(h, "B")
    kind = h.case("batch", ["single", "first", "second"])
    t = h.tensor_of(e)
    b0 = h.tensor_of(B0)
    other = torch.tensor(strain2(), dtype=torch.float64)
    if kind == "single":
        B = _epsilon_to_b(t, b0)
    else:
        i = 0 if kind == "first" else 1
        both = _epsilon_to_b(torch.stack([t, other] if i == 0 else [other, t]), b0)
        h.check(tuple(both.shape) == (2, 3, 3), "one lattice matrix per strain")
        B = both[i]
        h.check_eq(h.tensor_of(mm(h, F2, h.vals(both[1 - i]))), B0, "the other lattice")
    Bs = h.vals(B)
    h.check_eq(h.tensor_of(mm(h, F, Bs)), B0, "F B = B0 with the upper triangular F of the strain")
    h.check_eq(t, e, "input modified")


@harness("P25", functions=[B2E, E2B], bounds="any upper triangular deformation gradient and reference lattice as above", time=200)
def back(h):
    """The six strain components come back in the order e11,e12,e13,e22,e23,e33."""
    from xrd_simulator.utils import _b_to_epsilon, _epsilon_to_b

    F = upper(h, "F")
    C, e = strain_of(h, F)
    B0 = upper(h, "B")
    # B = F^-1 B0, by back substitution
    B = [None, None, None]
    B[2] = [x / F[2][2] for x in B0[2]]
    B[1] = [(B0[1][j] - F[1][2] * B[2][j]) / F[1][1] for j in range(3)]
    B[0] = [(B0[0][j] - F[0][1] * B[1][j] - F[0][2] * B[2][j]) / F[0][0] for j in range(3)]
    got = _b_to_epsilon(h.tensor_of(B), h.tensor_of(B0))
    want = [e[0][0], e[0][1], e[0][2], e[1][1], e[1][2], e[2][2]]
    h.check(len(got) == 6, "six components")
    for i in range(6):
        h.check_eq(got[i], want[i], "component %d" % i)


@harness("P25", functions=[LAB, E2B], bounds="1 or 2 crystals with any orientation, any strain (crystal frame, deformation gradient as above), any upper triangular reference lattice", time=200)
def lab(h):
    """A lab strain is expressed in the crystal's own frame with its own orientation."""
    import torch
    from xrd_simulator.utils import _lab_strain_to_B_matrix

    F = upper(h, "F")
    C, e = strain_of(h, F)
    know_feasible(h, F, C)
    B0 = upper(h, "B")
    b0 = h.tensor_of(B0)
    U = h.rotmat("U")
    Us = h.vals(U)
    lab = h.tensor_of(mm(h, mm(h, Us, e), tr(Us)))
    kind = h.case("batch", ["matrix", "stack of one", "first", "second"])
    if kind == "matrix":
        B = _lab_strain_to_B_matrix(lab, U, b0)
    elif kind == "stack of one":
        B = _lab_strain_to_B_matrix(lab.reshape(1, 3, 3), U.reshape(1, 3, 3), b0)
    else:
        i = 0 if kind == "first" else 1
        perm = [[0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0]]
        U2 = torch.tensor(perm, dtype=torch.float64)
        s2 = torch.tensor(mm(h, mm(h, perm, strain2()), tr(perm)), dtype=torch.float64)
        both = _lab_strain_to_B_matrix(torch.stack([lab, s2] if i == 0 else [s2, lab]), torch.stack([U, U2] if i == 0 else [U2, U]), b0)
        h.check(tuple(both.shape) == (2, 3, 3), "one lattice matrix per crystal")
        B = both[i]
        h.check_eq(h.tensor_of(mm(h, F2, h.vals(both[1 - i]))), B0, "lattice of the other crystal")
    h.check(tuple(B.shape) == (3, 3), "shape")
    h.check_eq(h.tensor_of(mm(h, F, h.vals(B))), B0, "lattice of the crystal-frame strain")


@harness("P25", functions=[E2B], bounds="any symmetric strain with components in [-2,2], alone or as one of 2", time=200, fork_where=True)
def refused(h):
    """Strains with a negative eigenvalue of I + 2*strain are refused."""
    import torch
    from xrd_simulator.utils import _epsilon_to_b

    v = [h.real("e%d" % i, -2, 2) for i in range(6)]
    e = [[v[0], v[1], v[2]], [v[1], v[3], v[4]], [v[2], v[4], v[5]]]
    C = [[2 * e[i][j] + (1 if i == j else 0) for j in range(3)] for i in range(3)]
    # a negative eigenvalue: some coefficient of the characteristic polynomial has the wrong sign
    t = C[0][0] + C[1][1] + C[2][2]
    c1 = sum(C[i][i] * C[j][j] - C[i][j] * C[j][i] for i, j in ((0, 1), (0, 2), (1, 2)))
    d = h.dot(C[0], h.crossp(C[1], C[2]))
    h.assume(h.or_(h.lt(t, 0), h.lt(c1, 0), h.lt(d, 0)))
    kind = h.case("batch", ["single", "first", "second"])
    T = h.tensor_of(e)
    if kind != "single":
        ok = torch.zeros((3, 3), dtype=torch.float64)
        T = torch.stack([T, ok] if kind == "first" else [ok, T])
    b0 = torch.eye(3, dtype=torch.float64)
    h.check_raises(ValueError, lambda: _epsilon_to_b(T, b0), "refused with a ValueError")
