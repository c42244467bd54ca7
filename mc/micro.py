"""References for microscopes: explicit formulas on top of freshly built detection models."""
from functools import lru_cache

import numpy as np

from mc import refs

TYPES = ("WidefieldMicroscope", "ConfocalMicroscope", "ApotomeMicroscope", "SIM2DMicroscope", "SIM3DMicroscope",
         "LatticeSIMMicroscope")
OPT = dict(na=1.2, ni=1.33, wl=520)
ORIENT = (0.0, 2.1, -1.3)


def own(kind, **over):
    """The type's own settings."""
    d = {}
    if kind == "ConfocalMicroscope":
        d = dict(wl_exc=460, pinhole_size=1.5)
    elif "SIM" in kind:
        d = dict(na_exc=1.1, wl_exc=488, wiener=0.1, dc_suppress=True)
        if kind != "LatticeSIMMicroscope":
            d["orientations"] = ORIENT
    d.update({k: v for k, v in over.items() if k in d})
    return d


def make(kind, base, settings):
    from pyotf import microscope

    return getattr(microscope, kind)(**base, **settings)


def model_params(base):
    """The constructor arguments of the detection model."""
    b = {k: v for k, v in base.items() if k not in ("model", "oversample_factor", "pixel_size", "size")}
    f = base["oversample_factor"]
    b["size"] = base["size"] * f
    b["res"] = base["pixel_size"] / f
    b.setdefault("zsize", base["size"])
    b.setdefault("zres", base["pixel_size"])
    return b


def planes(base):
    """The axial positions: the explicit ones if given, else centred on the middle plane."""
    mp = model_params(base)
    if mp.get("zrange") is not None:
        return np.atleast_1d(np.array(mp["zrange"], dtype=float))
    return (np.arange(mp["zsize"]) - mp["zsize"] // 2) * mp["zres"]


@lru_cache(64)
def _psfi(key):
    base, over = key
    p = np.array(model(dict(base), **dict(over)).PSFi)
    p.setflags(write=False)
    return p


def psfi(base, **over):
    """Intensity PSF of a freshly built detection model."""
    return _psfi((tuple(sorted(base.items())), tuple(sorted(over.items()))))


def model(base, **over):
    from pyotf.otf import HanserPSF, SheppardPSF

    return {"hanser": HanserPSF, "sheppard": SheppardPSF}[base["model"].lower()](**dict(model_params(base), **over))


def binned(fine, f):
    """Block sums whose middle sample of pixel size//2 is the optical axis, and unit sum."""
    nz, n, _ = fine.shape
    size = n // f
    out = np.zeros((nz, size, size))
    for y in range(size):
        for x in range(size):
            iy = [(n // 2 + f * (y - size // 2) + j - f // 2) % n for j in range(f)]
            ix = [(n // 2 + f * (x - size // 2) + j - f // 2) % n for j in range(f)]
            out[:, y, x] = fine[:, iy][:, :, ix].sum((1, 2))
    return out / out.sum()


def conv_disk(stack, radius):
    """Zero-extended lateral convolution with the uniform disk r < radius."""
    m = int(np.ceil(radius))
    offs = [(a, b) for a in range(-m, m + 1) for b in range(-m, m + 1) if (a * a + b * b) < radius * radius]
    nz, ny, nx = stack.shape
    count, m = len(offs), min(m, max(ny, nx) - 1)
    pad = np.zeros((nz, ny + 2 * m, nx + 2 * m))
    pad[:, m:m + ny, m:m + nx] = stack
    out = np.zeros_like(stack)
    for a, b in offs:
        if max(abs(a), abs(b)) > m:
            continue  # only reaches the zeros outside
        out += pad[:, m + a:m + a + ny, m + b:m + b + nx]
    return out / count


def confocal(base, s):
    """(fine PSF, margin of the disk decisions)."""
    radius = s["pinhole_size"] * 1.22 * base["wl"] / base["na"] / model_params(base)["res"] / 2
    det = psfi(base)
    margin = abs(radius - 1.5)
    if radius > 1.5:
        margin = min(margin, abs(radius ** 2 - round(radius ** 2)))
        det = conv_disk(det, radius)
    return det * psfi(base, wl=s["wl_exc"]), margin


def apotome(base, s):
    p = psfi(base)
    n = p.shape[-1]
    cut = n * model_params(base)["res"] * 2 * base["na"] / base["wl"]
    margin = abs(abs(cut - np.floor(cut)) - 0.5)
    ring = int(np.floor(cut + 0.5)) // 2
    y, x = np.indices((n, n)) - n // 2
    r = np.rint(np.sqrt(x ** 2 + y ** 2)).astype(int)
    h = refs.cdft(p, (1, 2))
    w = np.array([abs(o[r == ring].mean()) for o in h])
    return p * w[:, None, None], margin


def sim(kind, base, s):
    p, margin = psfi(base), 1.0
    n = p.shape[-1]
    mp = model_params(base)
    if s["wiener"] is not None:
        o = abs(refs.cdft(p, (0, 1, 2))) ** 2
        if s["wiener"] == 0:
            margin = 0.0 if ((o > 1e-21) & (o < 1e-11)).any() else 1.0
            f = (o > 1e-16).astype(float)
        else:
            f = o / (o + s["wiener"] ** 2 * o.max())
        p = refs.cidft(f, (0, 1, 2)).real
    na_exc = base["na"] if s["na_exc"] is None else s["na_exc"]
    wl_exc = base["wl"] if s["wl_exc"] is None else s["wl_exc"]
    k = 2 * np.pi * base["ni"] / wl_exc
    sin = na_exc / base["ni"]
    cos = np.sqrt(1 - sin ** 2)
    x = (np.arange(n) - n // 2) * mp["res"]
    z = planes(base)[:, None, None]
    yy, xx = x[None, :, None], x[None, None, :]
    ori = (0.0, np.pi / 2) if kind == "LatticeSIMMicroscope" else tuple(s["orientations"])
    dc = np.exp(1j * k * z) if s.get("dc", kind != "SIM2DMicroscope") else 0

    def beams(t):
        r = xx * np.cos(t) + yy * np.sin(t)
        return np.exp(1j * k * (r * sin + z * cos)) + np.exp(1j * k * (-r * sin + z * cos))

    if s.get("coherent", kind == "LatticeSIMMicroscope"):
        return p * abs(dc + sum(beams(t) for t in ori)) ** 2, margin
    out = p * sum(abs(dc + beams(t)) ** 2 for t in ori)
    if s["dc_suppress"]:
        out = out - (2 * len(ori) - 1) * p
    return out, margin


def fine(kind, base, s):
    """(fine-grid PSF, decision margin)."""
    if kind == "WidefieldMicroscope":
        return psfi(base), 1.0
    if kind == "ConfocalMicroscope":
        return confocal(base, s)
    if kind == "ApotomeMicroscope":
        return apotome(base, s)
    return sim(kind, base, s)
