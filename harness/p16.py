import inspect

from engine.harness import harness
from harness.common import PEAK_COLUMNS, peak

FN = ["detector.Detector.render", "detector.Detector.peaks_detector_intersection"]
STUB = ["the three renderers (P13, P14, P15) deposit volume*intensity of every peak they are given into a pixel that tells the renderer and the peak; without peaks the real renderers run"]
KW = dict(functions=FN, stubs=STUB, time=200, branch_ms=100, max_paths=600, timeout_ms=8000)
METHODS = {"macro": "_render_projected_volumes", "micro": "_render_gauss_peaks", "nano": "_render_airy_peaks"}


def recorders(h, mesh, motion, beam):
    import torch
    from xrd_simulator.detector import Detector

    def make(row, name):
        real = getattr(Detector, name)
        sig = inspect.signature(real)

        def stub(*a, **k):
            args = sig.bind(*a, **k).arguments
            self, peaks = args["self"], args["peaks"]
            if len(peaks) == 0:
                return real(*a, **k)
            if row == 0:
                vals = list(args.values())
                for o, what in ((mesh, "mesh"), (motion, "motion"), (beam, "beam")):
                    h.check(any(v is o for v in vals), "the peaks' own %s reaches the macro renderer" % what)
            n = [int(v) for v in args.values() if isinstance(v, int) and not isinstance(v, bool)][0]
            out = torch.zeros((n,) + tuple(self.pixel_coordinates.shape[:2]), dtype=torch.float64)
            for p in peaks:
                i, f = int(p[24]), int(p[28])
                out[f, row, i] = out[f, row, i] + p[21] * p[29]
            return out

        return stub

    for row, name in enumerate(METHODS.values()):
        h.patch(Detector, name, make(row, name))


def scene(h, volumes, times, pixel, misses=()):
    """A detector of 4 x 4 pixels and peaks that hit it (or not)."""
    import numpy as np
    from xrd_simulator.detector import Detector

    py, pz = pixel
    det = Detector(np.array([50.0, -2 * py, -2 * pz]), np.array([50.0, 2 * py, -2 * pz]), np.array([50.0, -2 * py, 2 * pz]), pixel_size=(pz, py), use_lorentz=True, use_polarization=False, use_structure_factor=True)
    rows = []
    for i, (v, t) in enumerate(zip(volumes, times)):
        r = peak(h, K=(1.0, 0.0, 0.0), source=(0.0, 0.1 + 100.0 * (i in misses), 0.1), time=t, volume=v, F2=2.0 + i, lorentz=3.0, pol=0.5, tag=i)
        r[24] = float(i)
        rows.append(r)
    mesh, motion, beam = object(), object(), object()
    recorders(h, mesh, motion, beam)
    return det, {"peaks": h.tensor_of(rows), "columns": list(PEAK_COLUMNS), "mesh_lab": mesh, "rigid_body_motion": motion, "beam": beam, "verbose": False}


def frame_of(t, n):
    return min(int(t * n), n - 1)


def expect(h, det, out, volumes, times, chosen, frames, misses=()):
    want = [[[0.0] * 4 for _ in range(4)] for _ in range(frames)]
    for i, (v, t) in enumerate(zip(volumes, times)):
        if i not in misses:
            want[frame_of(t, frames)][["macro", "micro", "nano"].index(chosen[i])][i] = v * (2.0 + i) * 3.0
    h.check(tuple(out[0].shape) == (frames, 4, 4), "shape of the frames")
    h.check_eq(out[0], want, "frames")
    ids = [int(x) for x in out[1]["peaks"][:, 24].tolist()]
    h.check(ids == [i for i in range(len(volumes)) if i not in misses], "peaks that are returned")


def classify(h, v, micro, macro):
    if h.decide(h.ge(v, macro, exact=True)):
        return "macro"
    return "nano" if h.decide(h.lt(v, micro, exact=True)) else "micro"


@harness("P16", bounds="3 peaks of any volumes in [0, 30] (one of them off the detector), default limits, pixels 0.5 x 2, 2 x 0.5 or 0.25 x 0.25, 1 or 3 frames", **KW)
def defaults(h):
    """Automatic method, default limits."""
    pixel = h.case("pixel", [(0.5, 2.0), (2.0, 0.5), (0.25, 0.25)])
    frames = h.case("frames", [1, 3])
    volumes = [h.real("v%d" % i, 0, 30) for i in range(2)] + [1.0]
    times = [0.1, 0.9, 0.5]
    macro = min(pixel) ** 3
    chosen = [classify(h, v, 0.1**3, macro) for v in volumes]
    det, pd = scene(h, volumes, times, pixel, misses=(2,))
    expect(h, det, det.render(pd, frames_to_render=frames, method="auto"), volumes, times, chosen, frames, misses=(2,))


@harness("P16", bounds="3 peaks of any volumes, any limits with micro <= macro (volumes equal to the limits included), method given or left to its default", **KW)
def limits(h):
    """Automatic method, arbitrary limits."""
    micro = h.real("micro", 0, 10)
    macro = h.real("macro", 0, 20)
    h.assume(h.ge(macro, micro, exact=True))
    volumes = [h.real("v%d" % i, 0, 30) for i in range(3)]
    tie = h.case("ties", [None, "macro", "micro"])
    if tie:
        volumes[0] = macro if tie == "macro" else micro
    times = [0.1, 0.1, 0.9]
    chosen = [classify(h, v, micro, macro) for v in volumes]
    det, pd = scene(h, volumes, times, (0.5, 0.5))
    kw = {"method": "auto"} if h.flag("named") else {}
    expect(h, det, det.render(pd, frames_to_render=2, macro_grain_limit=macro, micro_grain_limit=micro, **kw), volumes, times, chosen, 2)


@harness("P16", bounds="each named method with 3 peaks of any volume, frame counts -1, 0, 1, 2 and 4; two unknown names", **KW)
def named(h):
    """Named methods render everything by that method; unknown names are refused; frame counts below one."""
    volumes = [h.real("v%d" % i, 0, 30) for i in range(3)]
    times = [0.05, 0.55, 0.95]
    method = h.case("method", ["macro", "micro", "nano", "Macro", ""])
    frames = h.case("frames", [-1, 0, 1, 2, 4])
    det, pd = scene(h, volumes, times, (0.5, 0.5))
    if method not in METHODS:
        h.check_raises(ValueError, lambda: det.render(pd, frames_to_render=frames, method=method), "unknown method")
        return
    expect(h, det, det.render(pd, frames_to_render=frames, method=method), volumes, times, [method] * 3, max(1, frames))
