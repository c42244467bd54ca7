"""C03: invariants of PSFs and OTFs over all configurations of both models."""
import itertools

import numpy as np

from mc import refs
from mc.core import Check, close, digest, require

VECS = ("none", "x", "y", "z", "total")
CONDS = ("none", "sine", "herschel")
HOPT = [(520, 1.2, 1.33), (500.5, 0.85, 1.0), (0.6, 1.49, 1.515), (700, 0.3, 1)]
SOPT = [(520, 1.2, 1.33), (0.6, 1.49, 1.515), (500.5, 0.85, 1.0)]
NAMES = sorted(refs.NAMES)


def mirror(a, axes):
    """Index i -> 2*(n//2) - i (mod n): point reflection about the centre index."""
    for ax in axes:
        n = a.shape[ax]
        a = np.take(a, (2 * (n // 2) - np.arange(n)) % n, axis=ax)
    return a


class C(Check):
    id = "C03"
    level = "exploration"
    chunk = 2
    rule = ("Every combination of model x optics x sampling x lateral and axial size parity x vectorial correction "
            "x condition (x dual), and for Hanser every named aberration with both signs, magnitude aberrations and "
            "irregular z planes; non-trivial: distinct intensity PSFs with nonzero energy.")
    assumptions = ["values compared to 1e-9 of the largest modulus", "NA not above the index"]

    def cases(self, tier):
        th = tier == "thorough"
        sizes = [(s, z) for s in range(1, 10) for z in (1, 2, 3, 4, 5)] + [(12, 7), (15, 8), (16, 9), (17, 6), (24, 5),
                                                                          (32, 3), (33, 4)]
        sizes += [(64, 2), (100, 3), (128, 1), (129, 2), (3, 64), (6, 65), (5, 100), (4, 128)]
        if th:
            sizes += [(s, z) for s in range(10, 21) for z in (1, 2, 3, 4, 8, 9)] + [(64, 16), (65, 17), (48, 33)]
        for (size, zsize), o in itertools.product(sizes, HOPT):
            for f in (0.24, 0.5, 0.9):
                yield dict(model="h", o=o, f=f, size=size, zsize=zsize)
        for size in (6, 7, 12, 13):
            for f in (0.3, 0.5) if not th else (0.2, 0.3, 0.5, 0.8):
                for o in HOPT:
                    for name in NAMES:
                        yield dict(model="ab", o=o, f=f, size=size, names=[name])
        sizes = [(s, z) for s in range(3, 10) for z in (3, 4, 5, 6, 7, 8)] + [(12, 9), (15, 16), (16, 15), (17, 17),
                                                                             (33, 6), (6, 33), (64, 5), (7, 64), (5, 100),
                                                                             (100, 4)]
        if th:
            sizes += [(s, z) for s in range(3, 15) for z in (9, 10, 11, 12)] + [(32, 32), (33, 32), (32, 33), (48, 24)]
        for (size, zsize), o in itertools.product(sizes, SOPT):
            for f, fz in ((0.4, 0.55), (0.9, 0.9)):
                yield dict(model="s", o=o, f=f, fz=fz, size=size, zsize=zsize)

    def common(self, m, what, centre):
        """Invariants every model obeys; return PSFi."""
        a, i, fa, fi = m.PSFa, m.PSFi, m.OTFa, m.OTFi
        require(not np.iscomplexobj(i), what + "PSFi is complex")
        require(np.isfinite(i).all(), what + "PSFi is not finite")
        require((i >= 0).all(), what + "PSFi is negative")
        require(a.ndim == 4 and i.shape == a.shape[1:] == fa.shape[1:] == fi.shape and fa.shape == a.shape,
                what + f"shapes {a.shape} {i.shape} {fa.shape} {fi.shape}")
        close(i, (np.abs(a) ** 2).sum(0), what + "PSFi = sum |PSFa|^2")
        close(fa, refs.cdft(a, (1, 2, 3)), what + "OTFa = DFT(PSFa)")
        close(fi, refs.cdft(i, (0, 1, 2)), what + "OTFi = DFT(PSFi)")
        e = i.sum()
        c = tuple(n // 2 for n in i.shape)
        close(fi[c], e + 0j, what + "OTFi at its centre = total intensity", scale=e or 1)
        require(np.abs(fi).max() <= e * (1 + 1e-9), what + "OTFi has its largest modulus off centre")
        close(np.conj(mirror(fi, (0, 1, 2))), fi, what + "OTFi Hermitian", scale=e or 1)
        if centre:
            require(i[c] >= i.max() * (1 - 1e-9), what + f"PSFi peaks at {np.unravel_index(i.argmax(), i.shape)}, "
                    f"not at the centre {c}")
        return i

    def run(self, case):
        return getattr(self, "run_" + case["model"])(case)

    def combos(self, make, what0, centre=True):
        psfs, sigs = {}, set()
        for cond in CONDS:
            for vec in VECS:
                what = f"{what0} vec_corr={vec} condition={cond}: "
                m = make(vec, cond)
                i = psfs[vec] = self.common(m, what, centre and vec != "z")
                self.extra(m, i, what)
                if i.max() > 0:
                    sigs.add(digest(i))
            e0 = psfs["none"].sum()
            what = f"{what0} condition={cond}: "
            close(psfs["total"], psfs["x"] + psfs["y"] + psfs["z"], what + "total = x + y + z")
            close(psfs["total"].sum(), 2 * e0, what + "energy of total = 2 * energy without", scale=e0 or 1)
            if centre:  # axially symmetric pupil
                close(psfs["x"], psfs["y"].swapaxes(1, 2), what + "x and y are transposes", scale=psfs["y"].max() or 1)
        return sigs

    def extra(self, m, i, what):
        pass

    def run_h(self, case):
        from pyotf.otf import HanserPSF

        wl, na, ni = case["o"]
        size, zsize = case["size"], case["zsize"]
        res = case["f"] * wl / (2 * na)
        zres = 0.4 * wl
        what0 = f"Hanser res={res} "
        self.extra = lambda m, i, what: self.hanser_extra(m, i, what, wl, na, res)
        sigs = self.combos(lambda v, c: HanserPSF(wl, na, ni, res, size, zres=zres, zsize=zsize, vec_corr=v,
                                                  condition=c), what0)
        zs = [0.3 * wl, -2.1 * wl, 0.0, 5 * wl][:zsize]
        sigs |= self.combos(lambda v, c: HanserPSF(wl, na, ni, res, size, zrange=zs, vec_corr=v, condition=c),
                            what0 + f"zrange={zs}", False)
        # symmetric about the focus without a plane in it, in either order
        zs = [(i - (zsize - 1) / 2) * 0.37 * wl for i in range(zsize)][::(-1) ** size]
        sigs |= self.combos(lambda v, c: HanserPSF(wl, na, ni, res, size, zrange=zs, vec_corr=v, condition=c),
                            what0 + f"zrange={zs}", False)
        return dict(evals=45, sigs=sigs)

    def hanser_extra(self, m, i, what, wl, na, res):
        e = i.sum((1, 2))
        close(e, np.full_like(e, e.max()), what + "energy per plane", scale=e.max() or 1)
        if res <= wl / (4 * na):
            k = refs.kgrid(i.shape[1], res)
            kr = np.hypot(k[:, None], k[None])
            out = np.abs(m.OTFi[:, kr > 2 * na / wl * (1 + 1e-9)])
            require(not out.size or out.max() <= 1e-9 * i.sum(), what + "OTFi beyond the lateral cutoff")

    def run_ab(self, case):
        from pyotf.otf import HanserPSF, apply_aberration, apply_named_aberration

        wl, na, ni = case["o"]
        size = case["size"]
        res = case["f"] * wl / (2 * na)
        name = case["names"][0]
        sigs, n = set(), 0
        for vec, cond in itertools.product(VECS, CONDS):
            base = HanserPSF(wl, na, ni, res, size, zres=0.7 * wl, zsize=3, vec_corr=vec, condition=cond)
            e0 = base.PSFi.sum((1, 2))
            for mag in (0.7, -1.3):
                what = f"{name} {mag} vec_corr={vec} condition={cond} res={res}: "
                m = apply_named_aberration(base, name, mag)
                i = self.common(m, what, False)
                self.hanser_extra(m, i, what, wl, na, res)
                # the edge of the NA belongs to the modes only if it is exactly on a frequency
                close(i.sum((1, 2)), e0, what + "energy unchanged by a phase aberration")
                sigs.add(digest(i))
                n += 1
            mc = np.zeros(15)
            mc[NAMES.index(name)] = 0.4
            m = apply_aberration(base, mc, np.full(15, 0.11))
            i = self.common(m, f"magnitude mode vec_corr={vec} condition={cond}", False)
            self.hanser_extra(m, i, f"magnitude mode vec_corr={vec} condition={cond}", wl, na, res)
            n += 1
        return dict(evals=n, sigs=sigs)

    def run_s(self, case):
        from pyotf.otf import SheppardPSF

        wl, na, ni = case["o"]
        size, zsize = case["size"], case["zsize"]
        res = case["f"] * wl / (2 * na)
        zres = case["fz"] * wl / (2 * ni)
        self.extra = lambda *a: None
        sigs = set()
        for dual in (False, True):
            sigs |= self.combos(lambda v, c: SheppardPSF(wl, na, ni, res, size, zres=zres, zsize=zsize, vec_corr=v,
                                                         condition=c, dual=dual), f"Sheppard dual={dual} res={res}")
        return dict(evals=30, sigs=sigs)


CHECK = C()
