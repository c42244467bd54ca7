"""C19: microscope PSF and OTF against explicit block sums of the fine-grid PSF."""
import itertools

import numpy as np

from mc import micro, refs
from mc.core import Check, close, digest, raises, require

ZS = ({}, dict(zsize=3), dict(zsize=4, zres=150), dict(zres=90.5), dict(zrange=(-210.0, 40, 15.5, 300.0)),
      dict(zrange=(130.0,), zsize=2))
SZ = (dict(zsize=9), dict(zsize=7, zres=120), dict(zsize=8, zres=150), {})
VEC = (("none", "sine"), ("total", "herschel"), ("y", "none"))


def bases(tier):
    th = tier == "thorough"
    for model in ("hanser", "sheppard"):
        for size in range(2, 15 if th else 10):
            for f in (1, 3, 5, 7, 9) if th else (1, 3, 5):
                for zi in range(len(ZS if model == "hanser" else SZ)):
                    yield model, size, f, zi
        if not th:
            for f in (7, 9, 11):
                for size in (3, 4):
                    yield model, size, f, f // 2 % 2


class C(Check):
    id = "C19"
    chunk = 4
    rule = ("Every microscope type x model x size x oversampling factor x z specification x vectorial option x "
            "pixel size; PSF against block sums, OTF against the DFT matrix. Outcome signature: PSF.")
    assumptions = ["PSFs whose samples cancel to less than 1e-6 of their moduli are skipped",
                   "values compared to 1e-9 of the largest modulus"]

    def cases(self, tier):
        for kind in micro.TYPES:
            for model, size, f, zi in bases(tier):
                yield dict(kind=kind, model=model, size=size, f=f, zi=zi)
        for i, kind in enumerate(micro.TYPES):
            for j, (model, size, f, nz) in enumerate((("hanser", 16, 3, 3), ("hanser", 33, 1, 4), ("hanser", 32, 3, 2), ("hanser", 21, 5, 3),
                                                      ("hanser", 4, 1, 64), ("hanser", 5, 3, 33), ("hanser", 64, 1, 3), ("hanser", 128, 1, 2),
                                                      ("sheppard", 33, 1, 9), ("sheppard", 16, 3, 16), ("sheppard", 5, 3, 40))):
                yield dict(kind=kind, model=model, size=size, f=f, zi=0, nz=nz, only=(i + j) % 3)
        yield dict(t="names")

    def run(self, case):
        if "t" in case:
            return self.run_names()
        kind, f, size = case["kind"], case["f"], case["size"]
        sigs, runs, skipped = set(), 0, 0
        for i, (vec, px) in enumerate(zip(VEC, (90, 110.0, 75))):
            if case.get("only", i) != i:
                continue
            z = dict(ZS[case["zi"]])
            if case["model"] == "sheppard":
                if size < 3 and f == 1:
                    continue
                z = dict(SZ[case["zi"]])
            if "nz" in case:
                z["zsize"] = case["nz"]
            base = dict(micro.OPT, model=case["model"], size=size, pixel_size=px, oversample_factor=f,
                        vec_corr=vec[0], condition=vec[1], **z)
            s = micro.own(kind)
            if not micro.psfi(base).any():
                skipped += 1  # too few samples for the cap to hold any
                continue
            m = micro.make(kind, base, s)
            what = f"{kind} {base}: "
            mp = micro.model_params(base)
            planes = micro.planes(base)
            for k, v in mp.items():
                close(getattr(m.model, k), v if k != "zrange" else planes, what + "model." + k, 1e-12) if not isinstance(v, str) \
                    else require(getattr(m.model, k) == v, what + "model." + k)
            fine = np.array(m.model_psf)
            require(fine.shape == (len(planes), mp["size"], mp["size"]), what + f"fine shape {fine.shape}")
            if abs(fine.sum()) < 1e-6 * abs(fine).sum() or not fine.any():
                skipped += 1
                continue
            scale = abs(fine).sum() / abs(fine.sum())
            want = micro.binned(fine, f)
            # reads in either order
            if runs % 2:
                otf, psf = np.array(m.OTF), np.array(m.PSF)
            else:
                psf, otf = np.array(m.PSF), np.array(m.OTF)
            require(psf.shape == (len(planes), size, size), what + f"PSF shape {psf.shape}")
            # reading the camera's image does not touch what it was made from
            close(m.model_psf, fine, what + "fine PSF after reading PSF and OTF", 1e-12)
            close(m.model.PSFi, micro.psfi(base), what + "model PSF after reading PSF and OTF", 1e-9)
            close(m.PSF, psf, what + "PSF read again", 1e-12)
            close(m.OTF, otf, what + "OTF read again", 1e-12)
            close(psf, want, what + "PSF", 1e-9 * scale)
            close(psf.sum(), 1.0, what + "sum", 1e-9 * scale)
            close(otf, refs.cdft(want, (0, 1, 2)), what + "OTF", 1e-9 * scale)
            close(otf[tuple(v // 2 for v in otf.shape)], 1.0 + 0j, what + "OTF at the centre", 1e-9 * scale)
            if kind == "WidefieldMicroscope":
                close(fine, micro.psfi(base), what + "fine PSF", 1e-9)
                if vec[0] != "z":
                    c = tuple(v // 2 for v in psf.shape)
                    # the odd detector sees the axis in the middle of its centre pixel
                    if mp["zsize"] > 1 and "zrange" not in base:
                        require(psf[c] >= psf.max() * (1 - 1e-9), what + f"peak at "
                                f"{np.unravel_index(psf.argmax(), psf.shape)}")
            runs += 1
            sigs.add(digest(psf))
        return dict(evals=runs, sigs=sigs, skipped=skipped)

    def run_names(self):
        runs, sigs = 0, set()
        for kind in micro.TYPES:
            for low in ("hanser", "sheppard"):
                ref = None
                for name in (low, low.upper(), low.title(), low[:3] + low[3:].upper()):
                    base = dict(micro.OPT, model=name, size=5, pixel_size=90, oversample_factor=1)
                    p = np.array(micro.make(kind, base, micro.own(kind)).PSF)
                    ref = p if ref is None else ref
                    close(p, ref, f"{kind} model={name}", 1e-12)
                    runs += 1
                sigs.add(digest(ref))
            for name in ("", "hans", "hanser ", " sheppard", "hansersheppard", "gibson-lanni", "psf", "hanser2",
                         "sheppard3d", "myhanser", "h", "s", "sheppar", "hanserpsf", "han ser", "hanser_", "HANSERPSF",
                         "hanser\n", "0", "vectorial"):
                base = dict(micro.OPT, model=name, size=5, pixel_size=90, oversample_factor=1)
                raises(ValueError, lambda: micro.make(kind, base, micro.own(kind)), f"{kind} model={name!r}")
                runs += 1
        return dict(evals=runs, sigs=sigs)


CHECK = C()
