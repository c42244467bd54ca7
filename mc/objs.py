"""Module-level builders usable by the pristine oracle, and shared helpers for histories."""
import numpy as np

ARRAYS = ("PSFa", "PSFi", "OTFa", "OTFi")
PARAMS = ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")


def cls(kind):
    from pyotf.otf import HanserPSF, SheppardPSF

    return {"h": HanserPSF, "s": SheppardPSF}[kind]


def pupil(tag, size):
    """Supplied pupils in fft order, square, complex, without symmetry."""
    y, x = np.indices((size, size)) - size // 2
    if tag == 1:
        p = (1 + 0.1 * x - 0.07 * y) * np.exp(1j * (0.3 * x + 0.05 * x * y - 0.11 * y ** 2 + 0.2))
    else:
        p = (0.7 - 0.05 * x * y) * np.exp(1j * (0.15 * y ** 3 - 0.4 * x))
    return np.roll(p, (-(size // 2), -(size // 2)), axis=(0, 1))


def build(kind, params, zrange=None, pup=None):
    """A model in the given state, built the plainest way."""
    kw = dict(params)
    if zrange is not None:
        kw["zrange"] = list(zrange)
    m = cls(kind)(**kw)
    if pup is not None:
        if isinstance(pup, (tuple, list)):
            from pyotf.otf import apply_aberration

            mc, pc = [None if c is None else np.array(c, dtype=float) for c in pup]
            m = apply_aberration(m, mc, pc)
        else:
            m.apply_pupil(pupil(pup, kw["size"]))
    return m


def fresh(kind, params, zrange=None, pup=None):
    """The four arrays of an undisturbed model."""
    m = build(kind, dict(params), zrange, pup)
    return [np.array(getattr(m, a)) for a in ARRAYS]


def same(a, b):
    """Equal parameter values (arrays by value)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool((a == b).all())
    return type(a) == type(b) and a == b
