"""C21: SIM PSFs against the explicit interference model."""
import itertools

import numpy as np

from mc import micro
from mc.core import Check, Violation, close, digest, require

WIENER = (None, 0, 0.0, 0.01, 0.1, 1, 2.5, 1e-3, 5e-4, 1e-5)
ORIENT = ((0.0,), (0, 2.1, -1.3), [0.3, 1.2], np.array([0, 2 * np.pi / 3, 4 * np.pi / 3]), (np.pi / 2, 0.0),
          (1.0, 1.0), (0.1, 0.9, 1.7, 2.6, 3.0))
EXC = ((None, None), (1.1, 488), (0.6, None), (None, 560.5), (1, 500.0), (1.3, 450),
       (0, None), (0.0, 500), (1.33, 520.0))
KINDS = ("SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope")


class C(Check):
    id = "C21"
    chunk = 2
    rule = ("Every SIM type x model x size of both parities x oversampling x wiener setting x DC suppression x "
            "orientation set x excitation NA and wavelength (given, omitted, zero, int, float) x z grid, and every combination of the coherence, DC and DC-suppression "
            "flags, against a sum of plane waves. Outcome signature: fine-grid PSF.")
    assumptions = ["wiener=0 configurations with a transfer function value within five decades of the support "
                   "threshold are skipped", "values compared to 1e-8"]

    def cases(self, tier):
        th = tier == "thorough"
        for kind in KINDS:
            for model in ("hanser", "sheppard"):
                for size in range(3, 12 if th else 8):
                    for f in (1, 3):
                        for o in range(len(ORIENT)) if kind != "LatticeSIMMicroscope" else (None,):
                            yield dict(kind=kind, model=model, size=size, f=f, o=o, th=th)
            for model, size, f, nz in (("hanser", 33, 1, 3), ("hanser", 16, 3, 4), ("hanser", 64, 1, 2), ("hanser", 4, 1, 40),
                                       ("hanser", 5, 1, 65), ("sheppard", 32, 1, 9), ("sheppard", 7, 1, 32),
                                       ("hanser", 4, 1, -9), ("hanser", 5, 3, -12), ("hanser", 6, 1, -33)):
                yield dict(kind=kind, model=model, size=size, f=f, o=1 if kind != "LatticeSIMMicroscope" else None, th=False, nz=nz)
        for model in ("hanser", "sheppard"):
            for size in range(3, 9 if th else 6):
                for f in (1, 3):
                    yield dict(t="flags", model=model, size=size, f=f)
        yield dict(t="refuse")

    def run(self, case):
        if case.get("t") == "flags":
            return self.run_flags(case)
        if case.get("t"):
            return self.run_refuse()
        kind, model, size, f = case["kind"], case["model"], case["size"], case["f"]
        runs, skipped, sigs = 0, 0, set()
        combos = [(w, d, e) for w in range(len(WIENER)) for d in (False, True) for e in range(len(EXC))]
        for j, (w, d, e) in enumerate(combos):
            if not case["th"] and (w + e + (case["o"] or 0) + size) % 3:
                continue
            z = (dict(zsize=5, zres=120), dict(zsize=6, zres=90.0), {},
                 dict(zrange=(-400.0, 30.0, 250.0, 90.0) if WIENER[w] is None else (-150.0, 50, 250.0)),
                 dict(zrange=(170.0,), zsize=3))[(j + size) % 5 if model == "hanser" else 2]
            if model == "sheppard":
                z = (dict(zsize=8, zres=120), dict(zsize=7, zres=150.0))[j % 2]
            if "nz" in case:
                z = dict(zsize=case["nz"], zres=(120, 130.0)[j % 2])
                if j % 4:
                    continue
                if case["nz"] < 0:  # that many explicit planes, unordered, none of them in focus
                    if WIENER[w] is not None:
                        continue
                    z = dict(zrange=tuple((30.0 - 110 * i * (-1) ** (i % 5 == 2), -60 + 47.5 * i)[j // 4 % 2]
                                          for i in range(-case["nz"])))
            base = dict(micro.OPT, model=model, size=size, pixel_size=(95, 80.0)[j % 2], oversample_factor=f,
                        vec_corr=("none", "total", "x")[(j + size) % 3], condition=("sine", "herschel")[j % 2], **z)
            s = dict(na_exc=EXC[e][0], wl_exc=EXC[e][1], wiener=WIENER[w], dc_suppress=d)
            if case["o"] is not None:
                s["orientations"] = ORIENT[case["o"]]
            if not micro.psfi(base).any():
                skipped += 1
                continue
            want, margin = micro.fine(kind, base, s)
            if margin < 1e-9:
                skipped += 1
                continue
            m = micro.make(kind, base, s)
            what = f"{kind} {base} {s}: "
            got = np.array(m.model_psf)
            require(got.dtype.kind == "f", what + f"dtype {got.dtype}")
            close(got, want, what + "fine PSF", 1e-8)
            loss = abs(want).sum() / max(abs(want.sum()), 1e-300)
            if loss < 1e4:
                close(m.PSF, micro.binned(want, f), what + "PSF", 1e-8 * loss)
            close(m.na_exc, base["na"] if s["na_exc"] is None else s["na_exc"], what + "na_exc", 0)
            close(m.wl_exc, base["wl"] if s["wl_exc"] is None else s["wl_exc"], what + "wl_exc", 0)
            runs += 1
            sigs.add(digest(got))
        return dict(evals=runs, sigs=sigs, skipped=skipped)

    def run_flags(self, case):
        """Coherence, DC wave and DC suppression chosen freely, at construction or afterwards."""
        runs, sigs = 0, set()
        base = dict(micro.OPT, model=case["model"], size=case["size"], pixel_size=95, oversample_factor=case["f"],
                    zsize=6, zres=110.0)
        for coherent, dc, sup, o, w in itertools.product((False, True), (False, True), (False, True),
                                                         ((0.4,), (0, 2.1, -1.3), [np.pi / 2, 0.7]),
                                                         (None, 0.1)):
            s = dict(na_exc=0.9, wl_exc=488, wiener=w, dc_suppress=sup, orientations=o, coherent=coherent, dc=dc)
            want, margin = micro.fine("BaseSIMMicroscope", base, s)
            what = f"{base} {s}"
            m = micro.make("BaseSIMMicroscope", base, s)
            close(m.model_psf, want, f"BaseSIMMicroscope {what}: fine PSF", 1e-8)
            sigs.add(digest(want))
            for kind in KINDS[:2]:
                own = {k: v for k, v in s.items() if k not in ("coherent", "dc")}
                m = micro.make(kind, base, own)
                m.coherent, m.dc = coherent, dc
                close(m.model_psf, want, f"{kind} {what}, flags assigned: fine PSF", 1e-8)
            runs += 3
        return dict(evals=runs, sigs=sigs)

    def run_refuse(self):
        runs = 0
        for kind in KINDS:
            base = dict(micro.OPT, model="hanser", size=5, pixel_size=90, oversample_factor=1)
            for v in (-1, -0.1, -1e-12, -100):
                s = dict(micro.own(kind), wiener=v)
                try:
                    micro.make(kind, base, s)
                except (ValueError, TypeError):
                    pass
                else:
                    raise Violation(f"{kind} accepted wiener={v}")
                m = micro.make(kind, base, micro.own(kind))
                before = np.array(m.PSF)
                try:
                    m.wiener = v
                except (ValueError, TypeError):
                    pass
                else:
                    raise Violation(f"{kind} accepted the assignment wiener={v}")
                require(m.wiener == 0.1, f"{kind} keeps the refused wiener {m.wiener}")
                close(m.PSF, before, f"{kind} after a refused wiener", 1e-12)
                runs += 2
        return dict(evals=runs, sig="refused")


CHECK = C()
