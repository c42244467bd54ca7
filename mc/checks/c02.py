"""C02: SheppardPSF.OTFa/PSFa against an explicit construction of the weighted shell."""
import itertools

import numpy as np

from mc import refs
from mc.core import Check, close, digest, require

VECS = ("none", "x", "y", "z", "total")
CONDS = ("none", "sine", "herschel")
OPTICS = [(520, 1.2, 1.33), (0.6, 1.49, 1.515), (500.5, 0.85, 1.0), (700, 0.3, 1), (510.0, 1.33, 1.33)]


class C(Check):
    id = "C02"
    level = "exploration"
    chunk = 1
    rule = ("Every combination of optics x sampling x size (3..9 and selected to 33) x zsize parity x "
            "isotropic/anisotropic voxels x dual x vectorial correction x condition; non-trivial: distinct "
            "nonzero OTFs.")
    assumptions = ["NA not above the index; grids where a voxel is within 1e-9 of a shell decision are skipped",
                   "values compared to 1e-9 of the largest modulus"]

    def cases(self, tier):
        th = tier == "thorough"
        shapes = [(3, 3), (3, 4), (4, 5), (5, 5), (5, 8), (6, 6), (7, 9), (8, 8), (9, 8), (8, 12), (9, 9),
                  (12, 15), (16, 16), (17, 16), (16, 17), (24, 24)]
        if th:
            shapes += [(a, b) for a in range(3, 14) for b in range(3, 14)] + \
                [(31, 32), (32, 31), (32, 32), (33, 33), (48, 40), (64, 64)]
        for size, zsize in shapes:
            for o in OPTICS:
                for f, fz in ((0.41, 0.57), (0.91, 0.89), (0.63, 0.31)):
                    yield dict(o=o, size=size, zsize=zsize, f=f, fz=fz)
                # isotropic voxels: same dk, dkz
                yield dict(o=o, size=size, zsize=size, f=0.53, fz=None)
        # shapes of real use
        for i, (size, zsize) in enumerate(((64, 5), (5, 64), (65, 8), (8, 65), (100, 4), (4, 100), (33, 32), (40, 48), (128, 3),
                                           (3, 128), (129, 4), (6, 200), (64, 64))):
            yield dict(o=OPTICS[i % len(OPTICS)], size=size, zsize=zsize, f=0.63, fz=0.57, few=i)
        # equal steps, different numbers of samples
        for i, (size, zsize) in enumerate(((9, 16), (16, 9), (8, 7), (7, 12), (15, 16), (24, 10))):
            for o in OPTICS:
                yield dict(o=o, size=size, zsize=zsize, f=0.53, fz=None)
        # units in which the lengths are very large or very small
        for i, (size, zsize) in enumerate(((5, 5), (6, 9), (8, 7), (9, 12))):
            for u in (1e-12, 1e-9, 1e3, 1e6, 1e10):
                yield dict(o=(OPTICS[i][0] * u, *OPTICS[i][1:]), size=size, zsize=zsize, f=(0.41, 0.63)[i % 2], fz=(0.57, 0.31)[i % 2])
        # default z arguments
        for size in (8, 9):
            yield dict(o=OPTICS[0], size=size, zsize=None, f=0.53, fz=None)

    def run(self, case):
        from pyotf.otf import SheppardPSF

        wl, na, ni = case["o"]
        size, zsize = case["size"], case["zsize"]
        res = case["f"] * wl / (2 * na)
        kw = {}
        zres = res
        if case["fz"] is not None:
            zres = kw["zres"] = case["fz"] * wl / (2 * ni)
        elif res >= wl / (2 * ni):
            res = zres = 0.9 * wl / (2 * ni)
        if zsize is not None:
            kw["zsize"] = zsize
        else:
            zsize = size
        sigs, n, skipped, empty = set(), 0, 0, 0
        for dual in (False, True):
            for j, (vec, cond) in enumerate(itertools.product(VECS, CONDS)):
                if "few" not in case or (j + case["few"] + dual) % 5 == 0:
                    ref, margin, count = refs.sheppard(wl, na, ni, res, size, zres, zsize, vec, cond, dual)
                    if margin < 1e-9:
                        skipped += 1
                        continue
                    what = f"dual={dual} vec_corr={vec} condition={cond} res={res}: "
                    m = SheppardPSF(wl, na, ni, res, size, vec_corr=vec, condition=cond, dual=dual, **kw)
                    otf = m.OTFa
                    require(np.iscomplexobj(otf), what + "OTFa is not complex")
                    require(np.isfinite(otf).all(), what + "OTFa is not finite")
                    require(len(ref) == refs.VEC_COMPONENTS[vec], "reference")
                    close(otf, ref, what + "OTFa")
                    close(m.PSFa, refs.cidft(ref, (1, 2, 3)), what + "PSFa")
                    n += 1
                    if count:
                        sigs.add(digest(otf))
                    else:
                        empty += 1
        return dict(evals=n, sigs=sigs, skipped=skipped, stats=dict(empty_shells=empty))


CHECK = C()
