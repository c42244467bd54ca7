"""Boring, independent reference models.  Explicit DFT matrices, closed forms, loops; no pyotf code."""
from fractions import Fraction
from functools import lru_cache
from math import factorial

import numpy as np


@lru_cache(None)
def idft(n):
    """Centred inverse DFT matrix, origin at n//2 in both domains."""
    j = np.arange(n) - n // 2
    return np.exp(2j * np.pi * ((np.outer(j, j)) % n) / n) / n


@lru_cache(None)
def dft(n):
    j = np.arange(n) - n // 2
    return np.exp(-2j * np.pi * ((np.outer(j, j)) % n) / n)


def apply_axes(data, axes, mat):
    out = np.asarray(data, dtype=complex)
    for ax in axes:
        out = np.moveaxis(np.tensordot(mat(out.shape[ax]), out, axes=(1, ax)), 0, ax)
    return out


def cdft(data, axes):
    return apply_axes(data, axes, dft)


def cidft(data, axes):
    return apply_axes(data, axes, idft)


def kgrid(n, d):
    """Centred frequencies."""
    return (np.arange(n) - n // 2) / (n * d)


def centre(a):
    """fft order -> centred order, last two axes."""
    n, m = a.shape[-2:]
    return np.roll(a, (n // 2, m // 2), axis=(-2, -1))


def uncentre(a):
    n, m = a.shape[-2:]
    return np.roll(a, (-(n // 2), -(m // 2)), axis=(-2, -1))


VEC_COMPONENTS = {"none": 1, "x": 2, "y": 2, "z": 2, "total": 6}


def pol_hanser(vec, th, ph):
    z = [np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph)]
    y = [(np.cos(th) - 1) * np.sin(ph) * np.cos(ph), np.cos(th) * np.sin(ph) ** 2 + np.cos(ph) ** 2]
    x = [np.cos(th) * np.cos(ph) ** 2 + np.sin(ph) ** 2, (np.cos(th) - 1) * np.sin(ph) * np.cos(ph)]
    return {"none": [np.ones_like(th)], "x": x, "y": y, "z": z, "total": z + y + x}[vec]


def uniform_planes(zsize, zres):
    return np.array([(i - zsize // 2) * zres for i in range(zsize)], dtype=float)


def lateral(wl, na, ni, res, size):
    k = kgrid(size, res)
    ky, kx = np.meshgrid(k, k, indexing="ij")
    kr = np.sqrt(kx ** 2 + ky ** 2)
    return ky, kx, kr


def hanser_margin(wl, na, ni, res, size):
    """Relative distance of the grid from the NA edge; tiny means the edge is numerically undecided.

    When everything is a power of two, frequencies are exact in any order of evaluation, and a pixel exactly on
    the edge is decided.
    """
    _, _, kr = lateral(wl, na, ni, res, size)
    d = np.abs(kr * wl / na - 1)
    if all(np.frexp(float(v))[0] == 0.5 for v in (wl, na, res, size)):
        d = d[d > 0]
    return np.min(d)


def hanser(wl, na, ni, res, size, zs, vec="none", cond="sine", pupil=None):
    """Amplitude PSF.  `pupil` is in centred order, None for ideal."""
    ky, kx, kr = lateral(wl, na, ni, res, size)
    ph = np.arctan2(ky, kx)
    kmag = ni / wl
    kz = np.sqrt(np.maximum(0, kmag ** 2 - kr ** 2))
    if pupil is None:
        pupil = (kr < na / wl).astype(complex)
    s = np.where(kr < kmag, kr / kmag, 0)
    th = np.arcsin(s)
    cos = np.cos(th)
    w = {"none": np.ones_like(cos), "sine": cos ** -0.5, "herschel": 1 / cos}[cond]
    W = idft(size)
    out = []
    for p in pol_hanser(vec, th, ph):
        planes = []
        for z in np.atleast_1d(zs):
            f = pupil * w * p * np.exp(2j * np.pi * kz * z)
            planes.append(W @ f @ W.T)
        out.append(planes)
    return np.array(out)


def sheppard(wl, na, ni, res, size, zres, zsize, vec="none", cond="sine", dual=False):
    """Amplitude OTF in centred order, and the smallest relative margin of the shell decisions."""
    k = kgrid(size, res)
    kzv = kgrid(zsize, zres)
    kz, ky, kx = np.meshgrid(kzv, k, k, indexing="ij")
    kr = np.sqrt(kx ** 2 + ky ** 2 + kz ** 2)
    dk, dkz = 1 / (size * res), 1 / (zsize * zres)
    kmag = ni / wl
    kzmin = np.sqrt(kmag ** 2 - (na / wl) ** 2)
    with np.errstate(all="ignore"):
        d = np.sqrt((kx * dk) ** 2 + (ky * dk) ** 2 + (kz * dkz) ** 2) / kr
    o = kr == 0
    d[o] = dk if dk == dkz else 0
    kk = abs(kz) if dual else kz
    m1 = d - abs(kr - kmag)
    m2 = kk - (kzmin + d)
    # decisions that matter: voxels for which the other condition holds or is near
    near = np.minimum(np.where(m2 > -1e-9 * kmag, abs(m1), np.inf), np.where(m1 > -1e-9 * kmag, abs(m2), np.inf))
    margin = near.min() / kmag
    sel = (m1 > 0) & (m2 > 0)
    with np.errstate(all="ignore"):
        m, n, s = kx / kr, ky / kr, abs(kz) / kr
        w = {"none": np.ones_like(s), "sine": s ** -0.5, "herschel": 1 / s}[cond]
        zz = [-m, -n]
        yy = [-n * m / (1 + s), 1 - n ** 2 / (1 + s)]
        xx = [1 - m ** 2 / (1 + s), -m * n / (1 + s)]
        comp = {"none": [np.ones_like(s)], "x": xx, "y": yy, "z": zz, "total": zz + yy + xx}[vec]
        otf = np.array([np.where(sel, c * w, 0) for c in comp], dtype=complex)
    return otf, margin, int(sel.sum())


# ---------------------------------------------------------------- zernike


def noll(j):
    """(n, m) of Noll index j, from the definition."""
    n = 0
    while (n + 1) * (n + 2) // 2 < j:
        n += 1
    pos = j - n * (n + 1) // 2 - 1  # 0-based in the row
    ms = []
    for a in range(n % 2, n + 1, 2):
        ms += [a] if a == 0 else [a, a]
    a = ms[pos]
    return n, (a if j % 2 == 0 else -a) if a else 0


def degrees(nmax):
    return [(n, m) for n in range(nmax + 1) for m in range(-n, n + 1) if (n - m) % 2 == 0]


@lru_cache(None)
def radial_coefs(n, m):
    """Exact integer coefficients {power: coef} of R_n^|m|."""
    m = abs(m)
    return {n - 2 * k: (-1) ** k * factorial(n - k)
            // (factorial(k) * factorial((n + m) // 2 - k) * factorial((n - m) // 2 - k))
            for k in range((n - m) // 2 + 1)}


def radial(n, m, r):
    """Exact evaluation (rationals) of R_n^|m| at float r, rounded once."""
    r = Fraction(float(r))
    return float(sum(c * r ** p for p, c in radial_coefs(n, m).items()))


def radial_arr(n, m, r):
    r = np.asarray(r, dtype=float)
    flat, inv = np.unique(r.ravel(), return_inverse=True)
    vals = np.array([radial(n, m, v) if v <= 1 else 0.0 for v in flat])
    return vals[inv].reshape(r.shape)


def zernike(n, m, r, theta, norm=True):
    """Standard orthonormal Zernike with the library's sign (-1)^m."""
    r, theta = np.asarray(r, dtype=float), np.asarray(theta, dtype=float)
    n, m = int(n), int(m)
    if (n - m) % 2:
        return np.zeros(np.broadcast(r, theta).shape)
    ang = np.sin(abs(m) * theta) if m < 0 else np.cos(m * theta)
    z = (-1) ** abs(int(m)) * radial_arr(n, m, r) * ang
    if norm:
        z = z * np.sqrt((1 if m == 0 else 2) * (n + 1))
    return z


NAMES = {
    # name: (n, m), cosine modes m > 0
    "piston": (0, 0), "tip": (1, 1), "tilt": (1, -1), "defocus": (2, 0),
    "oblique astigmatism": (2, -2), "vertical astigmatism": (2, 2),
    "vertical coma": (3, -1), "horizontal coma": (3, 1),
    "vertical trefoil": (3, -3), "oblique trefoil": (3, 3),
    "primary spherical": (4, 0), "vertical secondary astigmatism": (4, 2),
    "oblique secondary astigmatism": (4, -2), "vertical quadrafoil": (4, 4),
    "oblique quadrafoil": (4, -4),
}


def aberrated_pupil(wl, na, ni, res, size, mcoefs, pcoefs):
    """Centred pupil of the aberration formula; coefficients Noll ordered."""
    ky, kx, kr = lateral(wl, na, ni, res, size)
    th = np.arctan2(ky, kx)
    r = kr * wl / na
    mag = (kr < na / wl).astype(float)
    ph = np.zeros_like(mag)
    for j, (a, b) in enumerate(zip(mcoefs, pcoefs), 1):
        if a or b:
            z = zernike(*noll(j), r, th)
            mag = mag + a * z
            ph = ph + b * z
    return mag * np.exp(1j * ph)


# ---------------------------------------------------------------- arrays


def nearest_even(x):
    """Round half to even, exactly, of a float."""
    f = Fraction(float(x))
    lo = f.numerator // f.denominator
    d = f - lo
    if d > Fraction(1, 2) or (d == Fraction(1, 2) and lo % 2):
        lo += 1
    return lo


# ---------------------------------------------------------------- phase retrieval


class Retrieval:
    """The stated iteration, all arrays in centred order."""

    def __init__(self, data, wl, na, ni, res, zs, phase_only):
        data = np.asarray(data, dtype=float)
        self.data, self.phase_only = data, phase_only
        n = data.shape[-1]
        _, _, kr = lateral(wl, na, ni, res, n)
        self.mask = (kr < na / wl).astype(float)
        self.margin = hanser_margin(wl, na, ni, res, n)
        kz = np.sqrt(np.maximum(0, (ni / wl) ** 2 - kr ** 2))
        self.defocus = np.exp(2j * np.pi * kz * np.asarray(zs, dtype=float)[:, None, None])
        self.mag = np.sqrt(np.maximum(data, 0))
        self.pupils = [self.mask.astype(complex)]
        self.mse, self.mse_diff, self.pupil_diff = [], [], []
        self.misfit = []
        self.cond = np.inf  # smallest relative modulus whose phase was used

    def psfa(self, pupil):
        return cidft(pupil * self.defocus, (1, 2))

    def step(self):
        p = self.pupils[-1]
        a = self.psfa(p)
        i = abs(a) ** 2
        self.mse.append(float(((self.data - i) ** 2).mean()))
        self.misfit.append(float(((self.mag - abs(a)) ** 2).sum()))
        if len(self.mse) > 1:
            q = self.pupils[-2]
            self.mse_diff.append(abs(self.mse[-2] - self.mse[-1]) / self.mse[-2] if self.mse[-2] else np.nan)
            self.pupil_diff.append(float((abs(q - p) ** 2).mean() / (abs(q) ** 2).mean()))
        else:
            self.mse_diff.append(np.nan)
            self.pupil_diff.append(np.nan)
        used = abs(a)[self.mag > 0]
        if used.size:
            self.cond = min(self.cond, used.min() / (abs(a).max() or 1))
        new = (cdft(self.mag * np.exp(1j * np.angle(a)), (1, 2)) / self.defocus).mean(0) * self.mask
        if self.phase_only:
            u = abs(new)[self.mask > 0]
            self.cond = min(self.cond, u.min() / (u.max() or 1))
            new = np.exp(1j * np.angle(new)) * self.mask
        self.pupils.append(new)

    def run(self, iters):
        while len(self.mse) < iters:
            self.step()
        return self

    def stop(self, max_iters, ptol, mtol):
        """(number of records, returned pupil) for the given limits; the steps must have been run."""
        for i in range(max_iters):
            if self.pupil_diff[i] < ptol or self.mse_diff[i] < mtol or self.mse[i] < mtol:
                return i + 1, self.pupils[i]
        return max_iters, self.pupils[max_iters]
