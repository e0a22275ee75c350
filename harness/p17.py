from engine.harness import harness
from harness.p11 import flat_detector

GEN, CONV = "detector.Detector._generate_gaussian_kernel", "detector.Detector._conv2d_gaussian_kernel"


@harness("P17", functions=[GEN], bounds="sigma in [0.2,20], threshold in [1e-6,1.9], maximum radius 1, 2, 3 (thorough: 4, 5)", time=300)
def kernel(h):
    """Non-negative, symmetric, unit sum, decreasing with distance, within the maximum radius."""
    mx = h.case("max_radius", [1, 2, 3] + ([4, 5] if h.tier == "thorough" else []))
    sigma = h.real("sigma", 0.2, 20)
    thr = h.real("threshold", 1e-6, 1.9)
    det = flat_detector(gaussian_sigma=sigma, kernel_threshold=thr, max_gaussian_kernel_radius=mx)
    k = det.gaussian_kernel
    n = k.shape[0]
    h.check(k.ndim == 2 and k.shape[1] == n and n % 2 == 1, "square with a centre")
    r = n // 2
    h.check(1 <= r <= mx, "radius from 1 to the maximum")
    v = h.vals(k)
    h.check(h.eq(sum(sum(row) for row in v), 1), "sums to one")
    cls = {}
    for i in range(n):
        for j in range(n):
            cls.setdefault((i - r) ** 2 + (j - r) ** 2, []).append(v[i][j])
    last = None
    for d in sorted(cls):
        first = cls[d][0]
        h.check(h.gt(first, 0), "positive")
        for x in cls[d][1:]:
            h.check(h.eq(x, first), "symmetric")
        if last is not None:
            h.check(h.lt(first, last), "decreasing with distance")
            h.check(h.eq(first, cls[0][0] * h.exp(-d / (2 * sigma * sigma))), "Gaussian of the given sigma")
        last = first


@harness("P17", functions=[CONV], bounds="any frames of 4 x 5 pixels in [-10,10], alone, in stacks of 2 and with channels; kernels of radius 1 and 2", time=200)
def convolve(h):
    """Every frame is convolved by itself with the kernel: linear, same shape, shift-invariant, nothing wraps."""
    rad = h.case("radius", [1, 2])
    det = flat_detector(gaussian_sigma=1.3, kernel_threshold=0.001, max_gaussian_kernel_radius=rad)
    K = h.vals(det.gaussian_kernel)
    h.check(len(K) == 2 * rad + 1, "kernel size")
    H, W = 4, 5
    kind = h.case("layout", ["frame", "stack", "channels"])
    shape = {"frame": (H, W), "stack": (2, H, W), "channels": (2, 1, H, W)}[kind]
    f = h.reals("f", shape, -10, 10)
    fv = h.vals(f.reshape(-1, H, W))
    got = det._conv2d_gaussian_kernel(f)
    h.check(tuple(got.shape) == shape, "shape")
    g = got.reshape(-1, H, W)
    for s in range(len(fv)):
        want = []
        for i in range(H):
            for j in range(W):
                t = 0
                for a in range(-rad, rad + 1):
                    for b in range(-rad, rad + 1):
                        if 0 <= i + a < H and 0 <= j + b < W:
                            t = t + fv[s][i + a][j + b] * K[rad - a][rad - b]
                want.append(t)
        h.check_eq(g[s].reshape(-1), want, "frame %d" % s)
    h.check_eq(f, h.vals(h.tensor_of([x for fr in fv for row in fr for x in row]).reshape(shape)), "input modified")


@harness("P17", functions=[GEN, CONV], bounds="two sources of any intensity at least a kernel radius from the border of 7 x 6 frames, any sigma in [0.3,10]", time=200)
def total(h):
    """Interior sources keep their total intensity."""
    import torch

    rad = h.case("radius", [1, 2])
    det = flat_detector(gaussian_sigma=h.real("sigma", 0.3, 10), kernel_threshold=1e-9, max_gaussian_kernel_radius=rad)
    r = det.gaussian_kernel.shape[0] // 2
    H, W = 7, 6
    a, b = h.real("a", 0, 10), h.real("b", 0, 10)
    cell = h.case("cells", [((r, r), (H - 1 - r, W - 1 - r)), ((H - 1 - r, r), (r, W - 1 - r)), ((3, 3), (3, 2))])
    frame = [[0.0] * W for _ in range(H)]
    for (i, j), x in zip(cell, (a, b)):
        frame[i][j] = frame[i][j] + x
    got = det._conv2d_gaussian_kernel(h.tensor_of([frame, frame]))
    h.check(tuple(got.shape) == (2, H, W), "shape")
    for s in range(2):
        h.check(h.eq(h.val(got[s].sum()), a + b), "total of frame %d" % s)
