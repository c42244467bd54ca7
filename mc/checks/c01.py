"""C01: HanserPSF.PSFa against an explicit DFT-matrix evaluation of the pupil model."""
import itertools

import numpy as np

from mc import refs
from mc.core import Check, close, digest, require

VECS = ("none", "x", "y", "z", "total")
CONDS = ("none", "sine", "herschel")
# wl, na, ni
OPTICS = [(520, 1.2, 1.33), (500.5, 0.85, 1.0), (0.6, 1.49, 1.515), (700, 0.3, 1), (500.0, 1.33, 1.33),
          (488, 1, 1.5)]
RES = (0.31, 0.62, 0.94)  # fraction of the Abbe limit
SMALL = (1, 2, 3, 4, 5, 6, 7, 8, 9)
LARGE = (12, 15, 16, 24, 31, 32, 33, 48, 64, 65)


def zspecs(wl, full):
    """(constructor kwargs, expected planes)"""
    u = float(wl)
    out = [dict(zsize=1, zres=0.4 * u), dict(zsize=2, zres=0.3 * u), dict(zsize=3, zres=0.37 * u),
           dict(zrange=[0]), dict(zrange=[-1.7 * u, 0.0, 0.3 * u, 2.9 * u])]
    if full:
        out += [dict(zsize=4, zres=0.4 * u), dict(zsize=5, zres=1.1 * u), dict(zsize=9, zres=0.21 * u),
                dict(zrange=0.8 * u), dict(zrange=[0.5 * u, -0.5 * u, 0.5 * u]),
                dict(zrange=[int(2 * u) + 1, -3, 0]), dict(), dict(zsize=3), dict(zres=0.25 * u)]
    return out


def planes(z, res, size):
    if "zrange" in z:
        return np.atleast_1d(np.array(z["zrange"], dtype=float))
    return refs.uniform_planes(z.get("zsize", size), z.get("zres", res))


def pupil(kind, size):
    """User supplied pupils, centred order; nonzero everywhere, also outside the NA."""
    y, x = np.indices((size, size)) - size // 2
    if kind == "smooth":
        return (1 + 0.1 * x - 0.07 * y) * np.exp(1j * (0.3 * x + 0.05 * x * y - 0.11 * y ** 2 + 0.2))
    if kind == "real":
        return 0.2 + ((3 * x + 5 * y) % 7).astype(float)
    if kind == "int":
        return ((2 * x + y) % 3).astype(int)
    raise ValueError(kind)


class C(Check):
    id = "C01"
    level = "exploration"
    chunk = 4
    rule = ("Every combination of optics x sampling x lateral size (1..9 and selected to 65) x z specification x "
            "vectorial correction x condition x pupil (ideal, three supplied, and for sizes <= 4 every delta "
            "pupil); non-trivial: PSFs whose rounded values are distinct.")
    assumptions = ["NA not above the index; grids where a frequency is within 1e-9 of the NA edge are skipped "
                   "unless the arithmetic is exact", "values compared to 1e-9 of the largest modulus",
                   "supplied pupils vanish at frequencies within 1e-6 of index/wavelength"]

    def cases(self, tier):
        th = tier == "thorough"
        for size in SMALL:
            for o, f in itertools.product(OPTICS, RES):
                for z in zspecs(o[0], th or (o == OPTICS[0] and f == RES[1])):
                    yield dict(o=o, f=f, size=size, z=z)
        for size in LARGE + ((80, 96, 127, 128) if th else ()):
            for i, (o, f) in enumerate(itertools.product(OPTICS, RES)):
                if th or i % 4 == 1:
                    for z in zspecs(o[0], False)[2:]:
                        yield dict(o=o, f=f, size=size, z=z)
        # sizes and plane counts of real use
        for i, size in enumerate((96, 127, 128, 160, 200, 255, 256, 257, 300) + ((384, 511, 512, 600) if th else ())):
            o, f = OPTICS[i % 5], RES[i % 3]
            yield dict(o=o, f=f, size=size, z=dict(zsize=2, zres=0.4 * o[0]), few=i)
        for i, nz in enumerate((16, 31, 32, 33, 50, 63, 64, 65, 100, 101, 128, 150, 256, 300)):
            for size in (3, 8):
                o, f = OPTICS[i % 5], RES[(i + size) % 3]
                yield dict(o=o, f=f, size=size, z=dict(zsize=nz, zres=0.2 * o[0]), few=i)
                yield dict(o=o, f=f, size=size, z=dict(zrange=[0.13 * o[0] * (k * 7 % nz - 11) for k in range(nz)]), few=i + 1)
        # planes that are almost uniform, symmetric, repeated or in focus
        for i, (a, d) in enumerate(itertools.product(range(4), (1e-1, 3e-2, 1e-2, 1e-3, 1e-4, 1e-6, 1e-9))):
            for size in (5, 8):
                o, f = OPTICS[(i + size) % 6], RES[i % 3]
                u = float(o[0])
                z = ([-1.1, -0.55 + d, 0, 0.55], [-0.4 - d, 0.0, 0.4], [0.7, 0.7 + d, 0.7 - d], [d, -d, 1.2 * d])[a]
                yield dict(o=o, f=f, size=size, z=dict(zrange=[u * v for v in z]), few=i)
        # planes close to multiples of the z step
        for i, (z0, d) in enumerate(itertools.product((-2, -1.5, 0, 3), (0.1, 2e-2, 1e-2, 1e-3, 1e-5))):
            for nz in (2, 4, 5):
                o, f = OPTICS[(i + nz) % 6], RES[(i + nz) % 3]
                step = float((0.6, 0.25)[i % 2] * o[0])
                yield dict(o=o, f=f, size=(5, 8)[i % 2], few=i + nz,
                           z=dict(zres=step, zrange=[step * (z0 + k + d * (k % 2)) for k in range(nz)]))
        # the NA edge exactly on a grid frequency, in exact binary arithmetic
        for size in (4, 8, 16):
            yield dict(o=(512, 1, 1.5), res=512.0 / size, size=size, z=dict(zrange=[0, 100.0]))
            yield dict(o=(512.0, 0.5, 1.0), res=512.0 / size, size=size, z=dict(zsize=3, zres=64))

    def run(self, case):
        from pyotf.otf import HanserPSF

        wl, na, ni = case["o"]
        size, z = case["size"], case["z"]
        exact = "res" in case
        res = case["res"] if exact else case["f"] * wl / (2 * na)
        if not exact and refs.hanser_margin(wl, na, ni, res, size) < 1e-9:
            return dict(evals=0, skipped=1)
        ky, kx, kr = refs.lateral(wl, na, ni, res, size)
        inside = abs(kr * wl / ni - 1) > 1e-6
        zs = planes(z, res, size)
        pupils = [("ideal", None)]
        if size <= 16 and not exact:
            pupils += [(k, pupil(k, size) * inside) for k in ("smooth", "real", "int")]
        if size <= 4 and not exact:
            for i, j in zip(*np.nonzero(inside)):
                p = np.zeros((size, size), complex)
                p[i, j] = 1
                pupils.append((f"delta{i},{j}", p))
        sigs, n = set(), 0
        for j, (vec, cond) in enumerate(itertools.product(VECS, CONDS)):
            if "few" not in case or (j + case["few"]) % 5 == 0:
                for name, p in pupils:
                    what = f"vec_corr={vec} condition={cond} pupil={name} res={res}: "
                    m = HanserPSF(wl, na, ni, res, size, vec_corr=vec, condition=cond, **z)
                    close(m.zrange, zs, what + "zrange", 1e-12, scale=max(1e-300, np.abs(zs).max()) or 1)
                    if p is not None:
                        m.apply_pupil(refs.uncentre(p))
                    psf = m.PSFa
                    require(np.iscomplexobj(psf), what + "PSFa is not complex")
                    ref = refs.hanser(wl, na, ni, res, size, zs, vec, cond, p)
                    require(len(ref) == refs.VEC_COMPONENTS[vec], "reference")
                    close(psf, ref, what + "PSFa")
                    sigs.add(digest(psf))
                    n += 1
        return dict(evals=n, sigs=sigs)


CHECK = C()
