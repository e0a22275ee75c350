import inspect

from engine.harness import harness
from harness.common import peak
from harness.hulls import array

FN = ["detector.Detector._project_convex_hull"]
CLIP = ["_clip_line_with_convex_polyhedron returns a number made of the ray, its direction and all planes (P18 checks it)"]


class Hull:
    """Two planes with arbitrary equations and a volume."""

    def __init__(self, h, volume, tag=""):
        self.volume = volume
        self.planes = [[h.real("n%s%d%d" % (tag, i, k), -2, 2) for k in range(3)] + [h.real("d%s%d" % (tag, i), -5, 5)] for i in range(2)]
        self.equations = array(h, self.planes)


def path(h, x, d, planes):
    """A positive number that tells rays, directions and planes (and their order with respect to each other) apart."""
    s = 400.0 + 1.5 * x[0] + 2.5 * x[1] + 4.0 * x[2] + 8.0 * (d[0] + 2 * d[1] - d[2])
    for n, p in planes:
        s = s + 0.5 * (n[0] - 2 * n[1] + 3 * n[2]) + h.dot(n, p) + 0.25 * n[0] * p[1]
    return s


def clip_stub(h, empty=False):
    from xrd_simulator import utils

    sig = inspect.signature(utils._clip_line_with_convex_polyhedron)

    def clip(*a, **k):
        x, d, p, n = [h.vals(v) for v in sig.bind(*a, **k).arguments.values()]
        if empty:
            return h.tensor_of([0.0 * r[0] for r in x])
        return h.tensor_of([path(h, r, d, list(zip(n, p))) for r in x])

    h.patch(utils, "_clip_line_with_convex_polyhedron", clip)


def detector(nz=4, ny=5):
    import numpy as np
    from xrd_simulator.detector import Detector

    # 2 x 3 micron pixels
    det = Detector(np.array([10.0, 0.0, 0.0]), np.array([10.0, 3.0 * ny, 0.0]), np.array([10.0, 0.0, 2.0 * nz]), n_pixels=(nz, ny))
    det._verbose = False
    return det


def planes_of(hull):
    return [(e[:3], [-e[3] * c for c in e[:3]]) for e in hull.planes]


@harness("P15", functions=FN, stubs=CLIP, bounds="boxes of 5 to 12 pixels, 1 x 5, 3 x 2 and 3 x 4, anywhere on 4 x 5 pixels; any direction, volume and planes; with and without any ray hitting the hull", time=300)
def rays(h):
    """Large projections: the volume is distributed in proportion to the path lengths of the pixels' own rays."""
    box = h.case("box", [(0, 1, 0, 5), (1, 4, 2, 4), (1, 4, 1, 5), (0, 3, 3, 5)])
    k = [h.real("kx", 1, 5), h.real("ky", -2, 2), h.real("kz", -2, 2)]
    hull = Hull(h, h.real("V", 0.1, 1000))
    missed = h.flag("no ray hits")
    clip_stub(h, missed)
    det = detector()
    out = det._project_convex_hull({"convex_hull": hull, "scattered_wave_vector": h.tensor_of(k)}, box)
    r, c = box[1] - box[0], box[3] - box[2]
    h.check(tuple(out.shape) == (r, c), "shape")
    length = h.norm(k)
    d = [v / length for v in k]
    want = [[0.0 if missed else path(h, [10.0, 3.0 * (box[2] + j), 2.0 * (box[0] + i)], d, planes_of(hull)) for j in range(c)] for i in range(r)]
    total = sum(sum(row) for row in want)
    v = h.vals(out)
    for i in range(r):
        for j in range(c):
            if missed:
                h.check(h.eq(v[i][j], 0, exact=True), "slivers between the rays deposit nothing")
            else:
                h.check_eq(v[i][j] * total, want[i][j] * hull.volume, "pixel %d,%d" % (i, j))


@harness("P15", functions=FN, stubs=CLIP + ["_sample_convex_hull_3d returns arbitrary points"], bounds="boxes of 2 to 4 pixels, 2 arbitrary sample points (the other samples fixed), any direction, volume and planes", time=300, max_paths=2000)
def samples(h):
    """Small projections: the path lengths of rays through points of the hull, each counted in the pixel its ray hits."""
    from xrd_simulator import utils

    box = h.case("box", [(1, 3, 2, 4), (0, 1, 3, 5), (2, 4, 0, 1)])
    t, u = h.real("ty", -0.5, 0.5), h.real("tz", -0.5, 0.5)
    k = [2.0, 2.0 * t, 2.0 * u]
    hull = Hull(h, h.real("V", 0.1, 1000))
    clip_stub(h)
    r, c = box[1] - box[0], box[3] - box[2]
    n = 7 * r * c
    pts, hits = [], []
    for i in range(n):
        if i < 2:  # anywhere in front of the box or next to it, not on a pixel edge
            ci = h.case("row%d" % i, [0, r - 1] if i == 0 else ["beside", 0])
            cj = h.case("col%d" % i, [c - 1] if i == 0 else [0, c])
            cell = (box[0] + (ci if ci != "beside" else -1), box[2] + cj)
            x = h.real("x%d" % i, -2, 2)
        else:
            cell = (box[0] + i % r, box[2] + (i // r) % c)
            x = 0.25 * (i % 5)
        fz, fy = (h.real("fz%d" % i, 0.01, 0.99), h.real("fy%d" % i, 0.01, 0.99)) if i < 2 else (0.5, 0.25)
        s = 10.0 - x
        p = [x, 3.0 * (cell[1] + fy) - s * t, 2.0 * (cell[0] + fz) - s * u]
        pts.append(p)
        hits.append(cell)
    asked = []

    def sample(hull_, count):
        asked.append(int(count))
        if hull_ is not hull:
            raise AssertionError("points of another hull")
        return array(h, pts[: int(count)])

    h.patch(utils, "_sample_convex_hull_3d", sample)
    det = detector()
    out = det._project_convex_hull({"convex_hull": hull, "scattered_wave_vector": h.tensor_of(k)}, box)
    h.check(tuple(out.shape) == (r, c), "shape")
    length = h.norm(k)
    d = [v / length for v in k]
    want = [[0.0] * c for _ in range(r)]
    for p, cell in list(zip(pts, hits))[: sum(asked)]:
        i, j = cell[0] - box[0], cell[1] - box[2]
        if 0 <= i < r and 0 <= j < c:
            want[i][j] = want[i][j] + path(h, p, d, planes_of(hull))
    total = sum(sum(row) for row in want)
    v = h.vals(out)
    for i in range(r):
        for j in range(c):
            h.check_eq(v[i][j] * total, want[i][j] * hull.volume, "pixel %d,%d" % (i, j))


@harness("P15", functions=FN, stubs=CLIP, bounds="a box of one pixel, any volume", time=60)
def single(h):
    """A hull inside one pixel puts its whole volume there."""
    hull = Hull(h, h.real("V", 0.1, 1000))
    clip_stub(h)
    k = [h.real("kx", 1, 5), h.real("ky", -2, 2), h.real("kz", -2, 2)]
    out = detector()._project_convex_hull({"convex_hull": hull, "scattered_wave_vector": h.tensor_of(k)}, (2, 3, 1, 2))
    h.check_eq(out, [[hull.volume]], "the pixel")


class Motion:
    """A different motion for every time."""

    def __init__(self, h):
        self.h = h

    def move(self, p, t):
        return [p[0] + t, p[1] * (1 + t), p[2] - 2 * t * p[1]]

    def __call__(self, vectors, time):
        h = self.h
        v, t = h.vals(vectors), h.vals(time)
        if isinstance(v[0][0], list):
            return h.tensor_of([[self.move(p, t[i] if isinstance(t, list) else t) for p in e] for i, e in enumerate(v)])
        return h.tensor_of([self.move(p, t[i] if isinstance(t, list) else t) for i, p in enumerate(v)])


class Mesh:
    def __init__(self, h):
        import torch

        self.rows = [[h.real("c%d%d" % (i, k), -3, 3) if i in (1, 4) else float((i * 7 + k * 3) % 5 - 2) for k in range(3)] for i in range(6)]
        self.coord = h.tensor_of(self.rows)
        self.enod = torch.tensor([[0, 1, 2, 3], [1, 2, 4, 5], [5, 0, 4, 3]])


def weigh(rows, k):
    """Stands for the projection of the hull of these points along k."""
    s = 0
    for i, r in enumerate(rows):
        s = s + (i + 1) * (r[0] + 2 * r[1] - r[2])
    return s + 3 * k[0] - k[1] + 0.5 * k[2]


BOXES = [(0, 2, 0, 2), (1, 3, 1, 3), (2, 4, 3, 5)]


class Piece:
    def __init__(self, rows, tag):
        self.rows, self.tag, self.volume = rows, tag, 1.0


@harness("P15", functions=["detector.Detector._render_projected_volumes"], stubs=["beam._intersect, the projected box and the projection are symbolic functions of the element's moved vertices and the scattered direction (P07, P11 and the harnesses above check them)", "the point spread doubles the frame", "the motion is an arbitrary simple function of point and time"], bounds="3 peaks of any of 3 elements at any three times in frames 0 to 2 of 3; any of them outside the beam or off the detector", time=400, max_paths=3000)
def render(h):
    """Every peak adds intensity x pixel area x projected volume of its own element at its own time to its own frame."""
    import torch

    elements = h.case("elements", [(0, 1, 2), (2, 0, 0), (1, 1, 1)])
    frames = h.case("frames", [(0, 1, 2), (1, 1, 0), (2, 0, 2)])
    gone = h.case("gone", ["none", "beam", "detector"])
    rows, times, mesh, motion = [], [], Mesh(h), Motion(h)
    for i in range(3):
        times.append(h.real("t%d" % i, 0, 1))
        for t in times[:-1]:  # which peak a hull belongs to is told by its time
            h.assume(h.gt(h.abs(times[-1] - t), 1e-3))
        k = [4.0, h.real("ky%d" % i, -1, 1), h.real("kz%d" % i, -1, 1)]
        p = peak(h, K=k, tag=i)
        p[0], p[6] = float(elements[i]), times[i]
        p[13:16] = k
        rows.append(p + [1.0 + i, 2.0 + i, 30.0, float(frames[i]), h.real("I%d" % i, 0.1, 10)])
    det = detector()
    moved = [[motion.move(mesh.rows[n], times[i]) for n in mesh.enod[elements[i]].tolist()] for i in range(3)]
    seen = []

    class Beam:
        def _intersect(self, vertices):
            v = h.vals(vertices)
            seen.append(v)
            return None if gone == "beam" and len(seen) == 2 else Piece(v, len(seen))

    def project(context, box):
        w = weigh(context["convex_hull"].rows, h.vals(context["scattered_wave_vector"]))
        return h.tensor_of([[w * (1 + i + 2 * j) for j in range(box[3] - box[2])] for i in range(box[1] - box[0])])

    def box(context):
        n = context["convex_hull"].tag
        return None if gone == "detector" and n == 1 else BOXES[n - 1]

    h.patch(type(det), "_project_convex_hull", lambda self, context, box: project(context, box))
    h.patch(type(det), "_get_projected_bounding_box", lambda self, context: box(context))
    h.patch(type(det), "_conv2d_gaussian_kernel", lambda self, frame: 2 * frame)
    table = h.tensor_of(rows)
    out = det._render_projected_volumes(table, Beam(), mesh, motion, 3, torch.float64)
    h.check(len(seen) == 3, "every peak is intersected with the beam once")
    order = []
    for s in seen:  # which peak is it?
        m = [i for i in range(3) if i not in order and h.decide(h.and_(*[h.eq(s[a][b], moved[i][a][b]) for a in range(4) for b in range(3)]))]
        h.check(len(m) > 0, "vertices of an element moved to its peak's time")
        if not m:
            return
        order.append(m[0])
    want = [[[0.0] * 5 for _ in range(4)] for _ in range(3)]
    for n, i in enumerate(order):
        if (gone == "beam" and n == 1) or (gone == "detector" and n == 0):
            continue
        w = weigh(moved[i], rows[i][13:16]) * rows[i][29] * 6.0 * 2
        b = BOXES[n]
        for a in range(b[0], b[1]):
            for c in range(b[2], b[3]):
                f = want[frames[i]]
                f[a][c] = f[a][c] + w * (1 + a - b[0] + 2 * (c - b[2]))
    h.check_eq(out, want, "frames")
    h.check_eq(table, rows, "the peaks are not modified")


@harness("P15", functions=["detector.Detector._render_projected_volumes"], bounds="no peak", time=60)
def none(h):
    """No peaks: empty frames."""
    import torch

    out = detector()._render_projected_volumes(torch.zeros((0, 30), dtype=torch.float64), None, Mesh(h), Motion(h), 2, torch.float64)
    h.check_eq(out, [[[0.0] * 5 for _ in range(4)] for _ in range(2)], "frames")


@harness("P15", functions=["detector.Detector._get_projected_bounding_box", "detector.Detector._detector_coordinate_to_pixel_index"], stubs=["_get_intersection returns arbitrary positions (P09 checks it)"], bounds="3 hull points anywhere along z or along y on, beside or behind a detector of 3 x 2 pixels, the last row whole or partial, the sides given as counts or pixel sizes", time=300, max_paths=4000, branch_ms=100)
def box(h):
    """The box holds exactly the pixels between the extreme positions of the hull's points, clipped to the detector."""
    import numpy as np
    import torch
    from xrd_simulator.detector import Detector

    corners = [np.array([10.0, 0.0, 0.0]), np.array([10.0, 6.0, 0.0])]
    kind = h.case("pixels", ["count", "size", "partial"])
    top = 5.0 if kind == "partial" else 6.0
    corners.append(np.array([10.0, 0.0, top]))
    det = Detector(*corners, n_pixels=(3, 2)) if kind == "count" else Detector(*corners, pixel_size=(2.0, 3.0))
    behind = h.case("behind", [(), (1,), (0, 1), (0, 1, 2)])
    names = h.case("extremes", [(0, 1), (2, 0), (1, 2)]) if not behind else (0, 2)
    along = h.case("along", ["z", "y"])
    points, hits = [], []
    for i in range(3):
        y = h.real("y%d" % i, -10, 15) if along == "y" else 4.0
        points.append([float(i), y, h.real("z%d" % i, -10, 15) if along == "z" else 1.0])
        hits.append((points[i][2], points[i][1], 10.0))
    seen = [i for i in range(3) if i not in behind]
    if seen:
        a, b = names
        a, b = (a if a in seen else seen[0]), (b if b in seen else seen[-1])
        lo = [hits[a][0], hits[b][1]]
        hi = [hits[b][0], hits[a][1]]
        for i in seen:
            for k in range(2):
                h.assume(h.ge(hits[i][k], lo[k], exact=True))
                h.assume(h.le(hits[i][k], hi[k], exact=True))

    class Hull3:
        pass

    hull = Hull3()
    hull.points, hull.vertices = array(h, [[99.0, 99.0, 99.0]] + points[::-1]), np.array([3, 1, 2])
    k = [2.0, h.real("ky", -1, 1), h.real("kz", -1, 1)]

    def intersection(self, rays, sources):
        out = []
        for r, s in zip(h.vals(rays), h.vals(sources)):
            i = int(s[0]) if not hasattr(s[0], "t") else [j for j in range(3) if h.decide(h.eq(s[0], float(j)))][0]
            h.check_eq(s, points[i], "source")
            h.check_eq(r, k, "direction")
            out.append([float("nan")] * 3 if i in behind else list(hits[i]))
        return h.tensor_of(out)

    h.patch(Detector, "_get_intersection", intersection)
    got = det._get_projected_bounding_box({"convex_hull": hull, "scattered_wave_vector": h.tensor_of(k)})
    if not seen:
        h.check(got is None, "nothing in front of the detector")
        return
    lim = (top, 6.0)
    off = h.or_(*[h.or_(h.lt(hi[i], 0, exact=True), h.gt(lo[i], lim[i], exact=True)) for i in range(2)])
    if got is None:
        h.check(off, "only projections beside the detector are dropped")
        return
    h.check(h.not_(off), "projections beside the detector are dropped")
    r = [int(x) for x in got]
    for i, n, p in ((0, 3, 2.0), (1, 2, 3.0)):
        a, b = r[2 * i], r[2 * i + 1]
        h.check(h.ite(h.lt(lo[i], 0, exact=True), a == 0, h.and_(h.le(a * p, lo[i], exact=True), h.lt(lo[i], (a + 1) * p, exact=True))), "first %d" % i)
        h.check(h.or_(b == n, h.and_(h.le((b - 1) * p, hi[i], exact=True), h.lt(hi[i], b * p, exact=True))), "last %d" % i)
        h.check(0 <= a <= b <= n, "inside the detector")
        h.check(h.or_(b < n, h.le((n - 1) * p, hi[i], exact=True)), "no further than needed %d" % i)
