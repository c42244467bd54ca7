"""C20: confocal and Apotome PSFs against explicit convolution and explicit ring averages."""
import numpy as np

from mc import micro
from mc.core import Check, close, digest, require

PIN = (0, 0.3, 0.4, 0.5, 0.6, 0.75, 1, 1.0, 1.3, 1.5, 2, 2.5, 3, 4.2, 6, 8)
WL = (460, 488.0, 520, 505.5, 600)
VEC = (("none", "sine"), ("total", "herschel"), ("x", "none"))
# NA, wavelength, pixel size, oversampling and pinhole size for which the radius is 1.5 in any order of operations
EXACT = ((1.22, 300.0, 100.0, 1, 1), (1.22, 300.0, 75.0, 3, 0.25), (1.22, 600.0, 100.0, 1, 0.5), (1.22, 600.0, 200.0, 1, 1),
         (0.61, 300.0, 100.0, 1, 0.5), (0.61, 150.0, 75.0, 3, 0.25), (0.61, 500.0, 250.0, 1, 0.75))
OPTICS = (dict(na=1.2, ni=1.33, wl=520), dict(na=0.7, ni=1, wl=610.0))


class C(Check):
    id = "C20"
    chunk = 1
    rule = ("Every model x optics x size of both parities x oversampling x pinhole size (on both sides of the "
            "no-convolution threshold and of every disk-sample threshold) x excitation wavelength x vectorial "
            "option, against loops over disk offsets and ring samples. Outcome signature: PSF.")
    assumptions = ["configurations on a rounding tie of the ring index or on the edge of a disk sample are skipped",
                   "the Apotome weight is compared up to a common factor, which the PSF's unit sum fixes"]

    def cases(self, tier):
        th = tier == "thorough"
        for kind in ("ApotomeMicroscope", "ConfocalMicroscope"):
            for model in ("hanser", "sheppard"):
                for oi in range(2):
                    for size in (3, 4, 5, 6, 7, 8, 9, 10, 11, 12) if th else (3, 4, 5, 6, 7, 8):
                        for f in (1, 3, 5) if th else (1, 3):
                            if size * f > 30:
                                continue
                            for v in range(3):
                                yield dict(kind=kind, model=model, oi=oi, size=size, f=f, v=v, th=th)
            for i, (model, size, f) in enumerate((("hanser", 16, 1), ("hanser", 33, 1), ("hanser", 32, 1), ("hanser", 11, 3),
                                                  ("sheppard", 32, 1), ("hanser", 64, 1), ("hanser", 100, 1))):
                yield dict(kind=kind, model=model, oi=i % 2, size=size, f=f, v=i % 3, th=False, few=True)
        for model in ("hanser", "sheppard"):
            for size in range(3, 13 if th else 9):
                yield dict(t="closed", model=model, size=size)
            for at in EXACT:
                yield dict(t="thresh", model=model, at=at)

    def run_thresh(self, case):
        """A radius of exactly 1.5 pixels, however it is computed, is not convolved."""
        na, wl, px, f, pin = case["at"]
        runs, sigs = 0, set()
        for size in (4, 7, 16):
            for v in range(3):
                base = dict(na=na, ni=1.33, wl=wl, model=case["model"], size=size, pixel_size=px, oversample_factor=f,
                            vec_corr=VEC[v][0], condition=VEC[v][1], zsize=5, zres=wl / 4)
                want = micro.psfi(base) * micro.psfi(base, wl=wl * 0.9)
                if not want.any():
                    continue
                m = micro.make("ConfocalMicroscope", base, dict(pinhole_size=pin, wl_exc=wl * 0.9))
                close(m.model_psf, want, f"{base} pinhole {pin}, radius 1.5: fine PSF", 1e-9)
                close(m.PSF, micro.binned(want, f), f"{base} pinhole {pin}, radius 1.5: PSF", 1e-9)
                runs += 1
                sigs.add(digest(want))
        return dict(evals=runs, sigs=sigs)

    def base(self, model, oi, size, f, v, px, z):
        o = OPTICS[oi]
        return dict(o, model=model, size=size, pixel_size=px, oversample_factor=f, vec_corr=VEC[v][0],
                    condition=VEC[v][1], **z)

    def run(self, case):
        if "t" in case:
            return getattr(self, "run_" + case["t"])(case)
        runs, skipped, sigs = 0, 0, set()
        kind, model = case["kind"], case["model"]
        pixels = (90, 131.0) if case["oi"] == 0 else (120, 205.0)
        for px in pixels:
            for z in (dict(zsize=6, zres=150), dict(zsize=5, zres=100.0), dict(zrange=(-350.0, 100, 620.0, -80.0))):
                if model == "sheppard":
                    if "zrange" in z:
                        continue
                    z = dict(z, zsize=z["zsize"] + 3)
                base = self.base(model, case["oi"], case["size"], case["f"], case["v"], px, z)
                if not micro.psfi(base).any():
                    skipped += 1
                    continue
                if kind == "ApotomeMicroscope":
                    settings = [{}]
                elif case["th"]:
                    settings = [dict(pinhole_size=p, wl_exc=w) for p in PIN for w in WL]
                else:
                    settings = [dict(pinhole_size=p, wl_exc=WL[(i + case["size"] + j) % 5])
                                for i, p in enumerate(PIN) for j in (0, 2)]
                if case.get("few"):
                    settings = settings[len(settings) // 3::7]
                for s in settings:
                    want, margin = micro.fine(kind, base, s)
                    # an Apotome whose ring lies beyond the support is dark everywhere
                    if margin < 1e-9 or want.sum() < 1e-9 * micro.psfi(base).sum() * micro.psfi(base).max():
                        skipped += 1
                        continue
                    m = micro.make(kind, base, s)
                    what = f"{kind} {base} {s}: "
                    got = np.array(m.model_psf)
                    if kind == "ApotomeMicroscope":
                        close(got / got.sum(), want / want.sum(), what + "fine PSF", 1e-9)
                    else:
                        close(got, want, what + "fine PSF", 1e-9)
                    # only the part of the fine grid that fills pixels; it always does
                    close(m.PSF, micro.binned(want, case["f"]), what + "PSF", 1e-9)
                    runs += 1
                    sigs.add(digest(np.array(m.PSF)))
        return dict(evals=runs, sigs=sigs, skipped=skipped)

    def run_closed(self, case):
        runs, sigs = 0, set()
        for f in (1, 3):
            for v in range(3):
                z = dict(zsize=7, zres=120)
                base = self.base(case["model"], 0, case["size"], f, v, 90, z)
                wf = np.array(micro.make("WidefieldMicroscope", base, {}).model_psf)
                if not wf.any():
                    continue
                m = micro.make("ConfocalMicroscope", base, dict(pinhole_size=0, wl_exc=base["wl"]))
                close(m.model_psf, wf ** 2, f"closed pinhole {base}", 1e-9)
                close(m.PSF, micro.binned(wf ** 2, f), f"closed pinhole {base}", 1e-9)
                runs += 1
                sigs.add(digest(wf))
        return dict(evals=runs, sigs=sigs)


CHECK = C()
