"""Inputs shared by several harnesses."""


def cols(h, m):
    """Columns of a 3x3 matrix as lists of scalars."""
    return [list(c) for c in zip(*h.vals(m))]


def comb(base, *terms):
    """base + sum c*v for (c, v) in terms, on 3-vectors of scalars."""
    out = list(base)
    for c, v in terms:
        out = [out[i] + c * v[i] for i in range(3)]
    return out


def det_frame(h, lo=0.5, hi=20.0, span=50.0, name=""):
    """A rectangular detector in any pose: corner, z and y directions, normal and side lengths."""
    R = cols(h, h.rotmat(name + "det"))
    c0 = [h.real(name + "corner%d" % i, -span, span) for i in range(3)]
    return c0, R[0], R[1], R[2], h.real(name + "zmax", lo, hi), h.real(name + "ymax", lo, hi)


def make_detector(h, frame, **kw):
    from xrd_simulator.detector import Detector

    c0, z, y, n, zmax, ymax = frame
    return Detector(h.tensor_of(c0), h.tensor_of(comb(c0, (ymax, y))), h.tensor_of(comb(c0, (zmax, z))), **kw)


PEAK_COLUMNS = [
    "grain_index", "phase_number", "h", "k", "l", "structure_factors", "diffraction_times", "G0_x", "G0_y", "G0_z", "Gx", "Gy", "Gz",
    "K_out_x", "K_out_y", "K_out_z", "Source_x", "Source_y", "Source_z", "lorentz_factors", "polarization_factors", "volumes", "2theta",
    "scherrer_fwhm", "peak_index",
]


def peak(h, K=(1.0, 0.0, 0.0), source=(0.0, 0.0, 0.0), time=0.25, F2=2.0, lorentz=3.0, pol=0.5, volume=1.5, fwhm=0.01, tag=0.0):
    """A row of the peak table; the remaining columns carry numbers that identify the row."""
    row = [100.0 * tag + 0.5 * i for i in range(25)]
    row[5], row[6], row[19], row[20], row[21], row[23] = F2, time, lorentz, pol, volume, fwhm
    row[13:16] = list(K)
    row[16:19] = list(source)
    return row


def in_frame(frame, v, a, b, d=None):
    """Components along the detector's z, y and normal as a lab vector (a point if d is None: on the detector)."""
    c0, z, y, n, zmax, ymax = frame
    return comb(v, (a, z), (b, y)) if d is None else comb(v, (a, z), (b, y), (d, n))
