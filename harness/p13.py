import math

from engine.harness import harness
from harness.common import peak

FN = ["detector.Detector._render_gauss_peaks"]


def detector(nz, ny, sigma=0.3, **kw):
    import numpy as np
    from xrd_simulator.detector import Detector

    # 2 x 3 micron pixels
    return Detector(np.array([10.0, 0.0, 0.0]), np.array([10.0, 3.0 * ny, 0.0]), np.array([10.0, 0.0, 2.0 * nz]), n_pixels=(nz, ny), gaussian_sigma=sigma, **kw)


def hit(h, z, y, frame=0, intensity=1.0, **kw):
    """A visible peak at pixel coordinates (z, y)."""
    return peak(h, **kw) + [z * 2.0, y * 3.0, 30.0, float(frame), intensity]


def render(h, det, rows, n):
    import torch

    det._verbose = False
    table = h.tensor_of(rows)
    out = det._render_gauss_peaks(table, n, torch.float64)
    h.check_eq(table, rows, "peaks modified") if len(rows) < 10 else None
    return out


def gauss(h, z, y, c, radius, sigma):
    """Gaussian about (z, y) on the pixels around the centre c, and its sum."""
    e = {}
    for i in range(c[0] - radius, c[0] + radius + 1):
        for j in range(c[1] - radius, c[1] + radius + 1):
            e[i, j] = h.exp(-((i - z) * (i - z) + (j - y) * (j - y)) / (2 * (0.49 + sigma * sigma)))
    return e, sum(e.values())


def compare(h, frame, nz, ny, want, size, label, tol=1e-6):
    """Every pixel is the wanted value, within tol*size (the code normalises in single precision)."""
    v = h.vals(frame)
    for i in range(nz):
        for j in range(ny):
            w = want.get((i, j), 0)
            if isinstance(w, int):
                h.check(h.eq(v[i][j], 0, exact=True), "%s: pixel %d,%d outside the spots is empty" % (label, i, j))
            else:
                h.check(h.le(h.abs(v[i][j] - w), tol * size, exact=True), "%s: pixel %d,%d" % (label, i, j))


@harness("P13", functions=FN, bounds="1 peak at any sub-pixel position in one interior pixel of 9 x 8 pixels, frame 0 or 1 of 2; total intensity in [1e6,1e8] so that no weight is below the cut-off; PSF sigma 0.3", time=300)
def spot(h):
    """The spot adds up to intensity*volume, is a Gaussian about the hit and stays inside the kernel radius."""
    a, b = h.real("a", -0.49, 0.49), h.real("b", -0.49, 0.49)
    I, V = h.real("I", 1e4, 1e5), h.real("V", 100, 1000)
    f = h.case("frame", [0, 1])
    c = (4, 4)
    out = render(h, detector(9, 8), [hit(h, c[0] + a, c[1] + b, f, I, volume=V)], 2)
    h.check(tuple(out.shape) == (2, 9, 8), "shape")
    v = h.vals(out)
    r = 3
    e, S = gauss(h, c[0] + a, c[1] + b, c, r, 0.3)
    total = 0
    for i in range(9):
        for j in range(8):
            h.check(h.eq(v[1 - f][i][j], 0, exact=True), "the other frame is empty")
            if (i, j) in e:
                total = total + v[f][i][j]
                h.check(h.ge(v[f][i][j], 0), "not negative")
                if (i, j) != c:
                    x, y = v[f][i][j] * e[c], v[f][c[0]][c[1]] * e[i, j]
                    h.check(h.eq(x, y) if not h.concrete else abs(x - y) <= 1e-4 * max(abs(x), abs(y)), "falls off with the distance from the hit")
            else:
                h.check(h.eq(v[f][i][j], 0, exact=True), "outside the kernel")
    h.check(h.le(h.abs(total - I * V), 1e-6 * I * V, exact=True), "total intensity")


@harness("P13", functions=FN, bounds="1 peak at any sub-pixel position in a border pixel of 3 x 4 pixels (all corners and sides), no weight below the cut-off", time=400)
def border(h):
    """Pixels off the detector receive nothing and nothing wraps around."""
    c = h.case("centre", [(0, 0), (2, 3), (0, 2), (1, 0), (2, 0), (0, 3)])
    a, b = h.real("a", -0.49, 0.49), h.real("b", -0.49, 0.49)
    I = h.real("I", 1e6, 1e8)
    out = render(h, detector(3, 4), [hit(h, c[0] + a, c[1] + b, 0, I, volume=1.0)], 1)
    h.check(tuple(out.shape) == (1, 3, 4), "shape")
    e, S = gauss(h, c[0] + a, c[1] + b, c, 3, 0.3)
    v = h.vals(out[0])
    for i in range(3):
        for j in range(4):
            h.check(h.le(h.abs(v[i][j] * S - I * e[i, j]), 1e-5 * I, exact=True) if (i, j) in e else h.eq(v[i][j], 0, exact=True), "pixel %d,%d" % (i, j))


POS = [(1.2, 2.6), (1.4, 2.9), (3.0, 0.3), (1.2, 2.6)]


@harness("P13", functions=FN, bounds="4 peaks of any intensities in [1e6,1e8] at fixed positions sharing pixels in 2 frames of 5 x 6 pixels, in 3 orders; PSF sigma 0.3 and 1.0", time=300)
def superpose(h):
    """Spots sharing pixels add up, each in its own frame, in any order."""
    sigma = h.case("sigma", [0.3, 1.0])
    order = h.case("order", [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)])
    I = [h.real("I%d" % i, 1e6, 1e8) for i in range(4)]
    fr = [0, 0, 1, h.case("frame3", [0, 1])]
    rows = [hit(h, *POS[i], fr[i], I[i], volume=0.5) for i in order]
    out = render(h, detector(5, 6, sigma), rows, 2)
    radius = max(3, int(3 * math.sqrt(0.49 + sigma * sigma)) + 1)
    for f in range(2):
        want = {}
        for i in range(4):
            if fr[i] == f:
                e, S = {}, 0
                c = (round(POS[i][0]), round(POS[i][1]))
                for p in range(c[0] - radius, c[0] + radius + 1):
                    for q in range(c[1] - radius, c[1] + radius + 1):
                        e[p, q] = math.exp(-((p - POS[i][0]) ** 2 + (q - POS[i][1]) ** 2) / (2 * (0.49 + sigma * sigma)))
                S = sum(e.values())
                for k in e:
                    want[k] = want.get(k, 0) + I[i] * (0.5 * e[k] / S)
        compare(h, out[f], 5, 6, want, sum(I), "frame %d" % f)


@harness("P13", functions=FN, bounds="1 peak of any intensity in [1e-9,1e4] at a fixed position in 7 x 7 pixels", time=200, max_paths=400)
def cutoff(h):
    """A contribution is dropped exactly if it is below the per-pixel cut-off of 1e-6."""
    I = h.real("I", 1e-9, 1e4, gen=lambda r: 10 ** r.uniform(-9, 4))
    out = render(h, detector(7, 7), [hit(h, 3.125, 2.875, 0, I, volume=1.0)], 1)
    v = h.vals(out[0])
    e = {(i, j): math.exp(-((i - 3.125) ** 2 + (j - 2.875) ** 2) / (2 * 0.58)) for i in range(7) for j in range(7)}
    S = sum(e.values())
    for k in e:
        w = I * (e[k] / S)
        x = v[k[0]][k[1]]
        kept = h.le(h.abs(x - w), 1e-6 * w, exact=True)
        h.check(h.or_(kept, h.and_(h.eq(x, 0, exact=True), h.lt(w, 1.001e-6))), "whole or dropped %d,%d" % k)
        h.check(h.implies(h.gt(w, 1.001e-6), kept), "not dropped above the cut-off %d,%d" % k)


@harness("P13", functions=FN, bounds="10 003 peaks (two batches of the smallest batch size): 4 spots of any intensities in [1e6,1e8], two in each batch, in 3 frames of 5 x 6 pixels; the other peaks lie outside the detector", stubs=["cuda.return_device_memory returns little free memory, so that the batch size is its minimum of 10 000"], time=300)
def batches(h):
    """Every peak is rendered once, in its own frame, when the peaks are split into batches."""
    import numpy as np
    import torch
    from xrd_simulator import detector as D

    n = 10003
    t = np.zeros((n, 30))
    t[:, 21], t[:, 25], t[:, 26], t[:, 29] = 1.0, 1e4, 1e4, 1.0
    at = [5, 9999, 10000, 10002]
    fr = [1, 0, 2, 1]
    I = [h.real("I%d" % i, 1e6, 1e8) for i in range(4)]
    for i, k in enumerate(at):
        t[k, 25], t[k, 26], t[k, 28] = POS[i][0] * 2, POS[i][1] * 3, fr[i]
    big = torch.from_numpy(t)
    rows = h.tensor_of([[float(x) for x in t[k, :29]] + [I[i]] for i, k in enumerate(at)])
    table = torch.cat([big[:5], rows[:1], big[6:9999], rows[1:3], big[10001:10002], rows[3:]])
    h.patch(D, "return_device_memory", lambda: {"free_gb": 4e6})
    det = detector(5, 6, 0.3)
    det._verbose = False
    out = det._render_gauss_peaks(table, 3, torch.float64)
    for f in range(3):
        want = {}
        for i in range(4):
            if fr[i] == f:
                e = {}
                c = (round(POS[i][0]), round(POS[i][1]))
                for p in range(c[0] - 3, c[0] + 4):
                    for q in range(c[1] - 3, c[1] + 4):
                        e[p, q] = math.exp(-((p - POS[i][0]) ** 2 + (q - POS[i][1]) ** 2) / (2 * (0.49 + 0.09)))
                S = sum(e.values())
                for k in e:
                    want[k] = want.get(k, 0) + I[i] * (e[k] / S)
        compare(h, out[f], 5, 6, want, sum(I), "frame %d" % f)
