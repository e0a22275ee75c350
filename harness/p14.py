import inspect
import math

from engine.harness import harness
from harness.p13 import detector, hit

FN = ["detector.Detector._render_airy_peaks", "detector.Detector._deposit_kernels_batch"]
STUB = ["_airy_kernel_batch returns a 3x3 kernel made of the peak's own Scherrer width and angle (it is checked on its own)", "the detector point spread (P13 checks the Gaussian kernel) doubles the frame instead"]
KW = dict(time=300, branch_ms=100, max_paths=1500, timeout_ms=8000)


def kernel_of(fwhm, angle):
    """Nine different numbers of a peak's own width and angle."""
    return [[fwhm * (1 + 3 * i + j) + 0.01 * angle * (i - j) for j in range(3)] for i in range(3)]


def stubs(h):
    import torch
    from xrd_simulator.detector import Detector

    sig = inspect.signature(Detector._airy_kernel_batch)

    def kernels(*a, **k):
        args = list(sig.bind(*a, **k).arguments.values())
        w, g = args[1].reshape(-1, 1, 1, 1), args[2].reshape(-1, 1, 1, 1)
        i = torch.tensor([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 9.0]], dtype=torch.float64)
        d = torch.tensor([[0.0, -1.0, -2.0], [1.0, 0.0, -1.0], [2.0, 1.0, 0.0]], dtype=torch.float64)
        return w * i + 0.01 * g * d

    h.patch(Detector, "_airy_kernel_batch", kernels)
    h.patch(Detector, "_conv2d_gaussian_kernel", lambda self, frame: 2 * frame)


def spread(h, frames, f, c, fz, fy, fwhm, angle, weight, shape):
    """Adds the bilinear split of the kernel about pixel c + (fz, fy)."""
    k = kernel_of(fwhm, angle)
    for i in range(3):
        for j in range(3):
            for di, wz in ((0, 1 - fz), (1, fz)):
                for dj, wy in ((0, 1 - fy), (1, fy)):
                    r, s = c[0] + i - 1 + di, c[1] + j - 1 + dj
                    if 0 <= r < shape[0] and 0 <= s < shape[1]:
                        frames[f][r][s] = frames[f][r][s] + 2 * wz * wy * k[i][j] * weight


def empty(n, shape):
    return [[[0.0] * shape[1] for _ in range(shape[0])] for _ in range(n)]


@harness("P14", functions=FN, stubs=STUB, bounds="1 peak at any sub-pixel position in any of the inner, border and corner pixels of 4 x 5 pixels, any Scherrer width, volume and intensity; frame 0 or 1 of 2", **KW)
def deposit(h):
    """The kernel is split bilinearly about the sub-pixel hit position; what falls off the detector is lost."""
    import torch

    c = h.case("pixel", [(1, 2), (2, 3), (0, 0), (3, 4), (0, 4), (3, 0), (1, 0), (0, 2), (3, 1), (2, 4)])
    f = h.case("frame", [0, 1])
    stubs(h)
    fz, fy = h.real("fz", 0.001, 0.999), h.real("fy", 0.001, 0.999)
    if h.flag("on the grid"):
        fz = 0.0
    I, V, w = h.real("I", 0.1, 100), h.real("V", 0.1, 100), h.real("fwhm", 0.01, 1)
    det = detector(4, 5)
    det._verbose = False
    want = empty(2, (4, 5))
    spread(h, want, f, c, fz, fy, w, 30.0, I * V, (4, 5))
    out = det._render_airy_peaks(h.tensor_of([hit(h, c[0] + fz, c[1] + fy, f, I, volume=V, fwhm=w)]), 2, torch.float64)
    h.check_eq(out, want, "frames")
    if c == (1, 2):
        total = 0
        for r in want[f]:
            for x in r:
                total = total + x
        k = 0
        for r in kernel_of(w, 30.0):
            k = k + sum(r)
        h.check(h.eq(total, 2 * k * I * V), "total intensity inside the detector")


def batched(h, n, frames):
    """n peaks of any memory needs with any amount of free memory."""
    import torch
    from xrd_simulator import detector as D

    stubs(h)
    need = [h.real("need%d" % i, 0.1, 3) for i in range(n)]
    free = h.real("free", 0, 10)
    widths = [h.real("fwhm%d" % i, 0.01, 1) for i in range(n)]
    det = detector(4, 5)
    det._verbose = False
    calls = []

    def estimate(self, fwhm, angle, *a, **k):
        return h.tensor_of([w * 2.0**30 for w in need])

    h.patch(D.Detector, "_estimate_airy_kernel_memory", estimate)
    h.patch(D, "return_device_memory", lambda: {"free_gb": free})
    places = [((1, 1), 0.25, 0.5), ((2, 3), 0.75, 0.25), ((1, 3), 0.125, 0.0), ((0, 2), 0.5, 0.5)][:n]
    want = empty(frames, (4, 5))
    rows = []
    for i, (c, fz, fy) in enumerate(places):
        f = i % frames
        spread(h, want, f, c, fz, fy, widths[i], 30.0, (i + 1.0) * 1.5, (4, 5))
        rows.append(hit(h, c[0] + fz, c[1] + fy, f, i + 1.0, fwhm=widths[i], tag=i))
    table = h.tensor_of(rows)
    out = det._render_airy_peaks(table, frames, torch.float64)
    h.check_eq(out, want, "every peak is deposited once, whatever the grouping")
    h.check_eq(table, rows, "the peaks are not modified")


@harness("P14", functions=FN, stubs=STUB + ["memory need per peak and free memory are arbitrary"], bounds="3 peaks in 2 frames, any memory needs (so any order) and any amount of free memory (so any grouping into batches)", **KW)
def batches(h):
    """Memory-limited batches."""
    batched(h, 3, 2)


@harness("P14", functions=FN, stubs=STUB + ["memory need per peak and free memory are arbitrary"], bounds="4 peaks in 1 or 3 frames, any memory needs and free memory", tiers=("thorough",), time=800, branch_ms=100, max_paths=6000, timeout_ms=8000)
def batches4(h):
    """Memory-limited batches of four peaks."""
    batched(h, 4, h.case("frames", [3, 1]))


@harness("P14", functions=["detector.Detector.render"], stubs=STUB, bounds="no peak", time=60)
def none(h):
    """No peaks: empty frames."""
    import torch

    stubs(h)
    det = detector(3, 4)
    det._verbose = False
    out = det._render_airy_peaks(torch.zeros((0, 30), dtype=torch.float64), 2, torch.float64)
    h.check_eq(out, empty(2, (3, 4)), "frames")


SHELLS = [0.5, 2.0, 3.0, 4.5, 6.5]


def bessel(h):
    """J1 replaced by x/2 times a value of its own for every shell of x; the first shells' values are arbitrary."""
    import numpy as np
    from xrd_simulator import detector as D

    values = [h.real("j%d" % i, 0.5 / (1 + i), 0.9 / (1 + i)) for i in range(3)] + [0.15, 0.07, 0.02]

    def shell(x):
        x = abs(x)
        return values[sum(x > s for s in SHELLS)]

    def j1(x):
        x = np.asarray(x, dtype=float)
        flat = [shell(v) * (v / 2) for v in x.reshape(-1)]
        return h.tensor_of(flat).numpy().reshape(x.shape) if flat else x

    h.patch(D, "j1", j1)
    return shell


@harness("P14", functions=["detector.Detector._airy_kernel_batch"], stubs=["the Bessel function J1 is replaced by arbitrary values constant on shells of its argument"], bounds="1 or 2 peaks whose first zeros are 0.2, 2.05, 2.33 or 3.1 pixels, incident angle 0, 60 or 120 degrees, any values of the profile", time=600, timeout_ms=20000)
def kernel(h):
    """Each kernel is the Airy profile of its own peak about its centre pixel, normalised, whatever else is in the batch."""
    import numpy as np
    import torch
    from xrd_simulator.detector import Detector

    profile = bessel(h)
    sizes = h.case("first zeros", [(2.33,), (2.05, 0.2), (3.1, 2.05), (0.2, 2.33)])
    angles = [[60.0, 0.0], [0.0, 120.0]][h.case("angles", [0, 1])]
    det = Detector(np.array([12.0, -4.0, -3.0]), np.array([12.0, 20.0, -3.0]), np.array([12.0, -4.0, 21.0]), pixel_size=2.0, gaussian_sigma=0.3)
    det._verbose = False
    wide = [s * 2.0 / 1.1861 * abs(math.cos(math.radians(a))) / 13.0 for s, a in zip(sizes, angles)]
    out = det._airy_kernel_batch(torch.tensor(wide, dtype=torch.float64), torch.tensor(angles[: len(sizes)], dtype=torch.float64))
    v = h.vals(out)
    h.check(len(v) == len(sizes), "one kernel per peak")
    n = len(v[0][0])
    c = n // 2
    h.check(n % 2 == 1 and len(v[0][0][0]) == n, "a centre pixel")
    for p, size in enumerate(sizes):
        g = v[p][0]

        def want(i, j):
            r = math.hypot(i, j)
            if size < 0.5:
                return math.exp(-r * r / (2 * 0.3 * 0.3))
            return 1.0 if r == 0 else profile(3.8317 * r / size) * profile(3.8317 * r / size)

        total = 0
        for i in range(-c, c + 1):
            for j in range(-c, c + 1):
                m = max(abs(i), abs(j))
                ref = g[c][c + m]
                total = total + g[c + i][c + j]
                h.check(h.le(h.abs(g[c + i][c + j] * want(0, m) - ref * want(i, j)), 1e-9), "profile of peak %d" % p)
        for m in range(1, c + 1):
            ref = g[c][c + m]
            h.check(h.or_(h.eq(ref, 0), h.and_(h.gt(ref, 0), h.le(h.abs(ref - g[c][c] * want(0, m)), 1e-9))), "cut only at the outside %d" % p)
            if m > 1:
                h.check(h.implies(h.eq(g[c][c + m - 1], 0), h.eq(ref, 0)), "no hole")
        h.check(h.and_(h.le(total, 1 + 1e-9), h.ge(total, 0.98 - 1e-9)), "normalised up to the threshold")
