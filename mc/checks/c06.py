"""C06: results depend on ratios of lengths only, and not on the numeric type of equal values."""
import itertools

import numpy as np

from mc import refs
from mc.core import Check, close, digest

POW2 = [2.0 ** k for k in (-30, -20, -10, -3, 1, 10, 20)]
OTHER = [1e-3, 1e-9, 1e3, 1 / 3.0, 1e-6]
VECS = ("none", "x", "total")
CONDS = ("none", "sine", "herschel")
OPTICS = [(520.0, 1.2, 1.33), (500.5, 0.85, 1.0), (488.0, 1.0, 1.5)]
COMMON = dict(na=1.2, ni=1.33, size=4, oversample_factor=3)


def arrays(m):
    return [np.array(getattr(m, a)) for a in ("PSFa", "PSFi", "OTFa", "OTFi")]


class C(Check):
    id = "C06"
    level = "exploration"
    chunk = 2
    rule = ("Every configuration (models, microscopes, aberrated models, retrievals) x every unit factor (powers of "
            "two, exact, and inexact factors where no decision is within 1e-9 of an edge) x every numeric "
            "representation of whole-number parameters; non-trivial: distinct reference results.")
    assumptions = ["values compared to 1e-9 (1e-12 for powers of two and numeric types) of the largest modulus"]

    def cases(self, tier):
        th = tier == "thorough"
        sizes = [(3, 3), (4, 5), (6, 7), (7, 6), (9, 8)] + ([(12, 13), (16, 16), (17, 5), (24, 9), (33, 8)] if th else [])
        for o, (s, z), f in itertools.product(OPTICS, sizes, (0.3, 0.5, 0.85)):
            for kind in ("h", "s", "a"):
                yield dict(t="model", kind=kind, o=o, f=f, size=s, zsize=z)
        for mt in ("WidefieldMicroscope", "ApotomeMicroscope", "ConfocalMicroscope", "SIM2DMicroscope",
                   "SIM3DMicroscope", "LatticeSIMMicroscope"):
            for model in ("hanser", "sheppard"):
                for size in (4, 5):
                    for of in (1, 3):
                        yield dict(t="micro", type=mt, model=model, size=size, of=of)
                for px in (120, 100, 400):
                    yield dict(t="itypes", type=mt, model=model, px=px)
                yield dict(t="whole", type=mt, model=model)
        for n in (4, 7, 8) + ((11, 16) if th else ()):
            for po in (False, True):
                yield dict(t="pr", n=n, phase_only=po)
        for kind in "hs":
            for size, zsize in ((4, 4), (5, 3), (6, 7)):
                yield dict(t="types", kind=kind, size=size, zsize=zsize)

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def run_model(self, case):
        from pyotf.otf import HanserPSF, SheppardPSF, apply_aberration

        wl, na, ni = case["o"]
        size, zsize, kind = case["size"], case["zsize"], case["kind"]
        res, zres = case["f"] * wl / (2 * na), 0.8 * case["f"] * wl / (2 * ni)
        sigs, n, skipped = set(), 0, 0
        for vec, cond in itertools.product(VECS, CONDS):
            def make(u, zr=None):
                kw = dict(vec_corr=vec, condition=cond, zsize=zsize, zres=zres * u)
                if kind == "s":
                    return arrays(SheppardPSF(wl * u, na, ni, res * u, size, **kw)) + \
                        arrays(SheppardPSF(wl * u, na, ni, res * u, size, dual=True, **kw))
                if zr is not None:
                    kw = dict(vec_corr=vec, condition=cond, zrange=[v * u for v in zr])
                m = HanserPSF(wl * u, na, ni, res * u, size, **kw)
                if kind == "a":
                    m = apply_aberration(m, np.array([0, 0.1, 0, 0.2, 0]), np.array([0.3, 0, -0.5, 0.1, 0.7]))
                return arrays(m)

            zrs = (None, (-1.3 * wl, 0.0, 0.4 * wl)) if kind != "s" else (None,)
            for zr in zrs:
                base = make(1, zr)
                sigs.add(digest(base[1]))
                for u in POW2 + OTHER:
                    if u in OTHER:
                        if kind == "s":
                            margin = min(refs.sheppard(wl, na, ni, res, size, zres, zsize, vec, cond, d)[1]
                                         for d in (False, True))
                        else:
                            margin = refs.hanser_margin(wl, na, ni, res, size)
                        if margin < 1e-9:
                            skipped += 1
                            continue
                    for name, a, b in zip(("PSFa", "PSFi", "OTFa", "OTFi") * 2, make(u, zr), base):
                        close(a, b, f"vec={vec} cond={cond} zrange={zr} unit factor {u}: {name}",
                              1e-12 if u in POW2 else 1e-9)
                    n += 1
        return dict(evals=n, sigs=sigs, skipped=skipped)

    def extra(self, mt, u, exc):
        if mt == "ConfocalMicroscope":
            return [dict(wl_exc=exc * u, pinhole_size=p) for p in (0, 0.5, 1, 2.5)]
        if "SIM" in mt:
            ori = {} if mt == "LatticeSIMMicroscope" else dict(orientations=(0, 1.1, 2.0))
            return [dict(wl_exc=(None if na is None else exc * u), na_exc=na, wiener=w, dc_suppress=d, **ori)
                    for na in (None, 1.0) for w in (None, 0, 0.1) for d in (False, True)]
        return [{}]

    def run_micro(self, case):
        from pyotf import microscope as M

        cls = getattr(M, case["type"])
        wl, na, ni, px = 520.0, 1.2, 1.33, 90.0
        sigs, n = set(), 0
        for vec in ("none", "total"):
            for k in range(len(self.extra(case["type"], 1, 488.0))):
                def make(u):
                    m = cls(model=case["model"], na=na, ni=ni, wl=wl * u, size=case["size"], pixel_size=px * u,
                            oversample_factor=case["of"], zres=100.0 * u, zsize=6, vec_corr=vec,
                            **self.extra(case["type"], u, 488.0)[k])
                    return m.PSF, m.OTF

                base = make(1.0)
                sigs.add(digest(base[0]))
                for u in POW2[::2]:
                    for name, a, b in zip(("PSF", "OTF"), make(u), base):
                        close(a, b, f"{self.extra(case['type'], 1, 488.0)[k]} vec={vec} factor {u}: {name}", 1e-12)
                    n += 1
        return dict(evals=n, sigs=sigs)

    def run_whole(self, case):
        """Lengths that are whole numbers in one unit and fractions in the other."""
        from pyotf import microscope as M

        cls = getattr(M, case["type"])
        sigs, n = set(), 0
        for px, of, u in itertools.product((100.0, 90.25, 91.0), (1, 3, 5), (4, 1000, 1e6)):
            for k, ex in enumerate(self.extra(case["type"], 1, 488.25)):
                if k % 3 != (of + int(px)) % 3 and case["type"] not in ("WidefieldMicroscope", "ApotomeMicroscope"):
                    continue
                if ex.get("wiener") == 0:
                    continue  # decided by the support, whose threshold may be close
                out = []
                for conv, f in ((float, 1.0), (float, u), (int, u)):
                    if conv is not float and not all(float(v * f).is_integer() for v in (520.25, px, 100.5, 488.25)):
                        continue
                    e = {q: conv(v * f) if q == "wl_exc" and v else v for q, v in ex.items()}
                    m = cls(model=case["model"], na=1.2, ni=1.33, wl=conv(520.25 * f), size=4, pixel_size=conv(px * f),
                            oversample_factor=of, zres=conv(100.5 * f), zsize=6, **e)
                    out.append((conv, f, m.PSF, m.OTF))
                sigs.add(digest(out[0][2]))
                for conv, f, psf, otf in out[1:]:
                    what = f"{ex} pixel {px} oversampling {of}: factor {f} {conv.__name__}"
                    close(psf, out[0][2], what + ": PSF", 1e-8)
                    close(otf, out[0][3], what + ": OTF", 1e-8)
                    n += 1
        return dict(evals=n, sigs=sigs)

    def run_itypes(self, case):
        """Whole numbers as int or float."""
        from pyotf import microscope as M

        cls = getattr(M, case["type"])
        sigs, n = set(), 0
        # 100 and 400 are no multiple of the oversampling factor
        base_kw = dict(na=1, ni=2, wl=(520, 520, 1900)[(120, 100, 400).index(case["px"])], size=4,
                       pixel_size=case["px"], zres=50, zsize=5)
        extras = {"ConfocalMicroscope": dict(wl_exc=488, pinhole_size=1)}
        ex = extras.get(case["type"], {})
        if "SIM" in case["type"]:
            ex = dict(wl_exc=488, na_exc=1, wiener=1, dc_suppress=True)
            if "Lattice" not in case["type"]:
                ex["orientations"] = (0, 1, 2)
        kw = dict(base_kw, **ex)
        # one parameter at a time fractional, the others whole
        frac = dict(na=0.9, ni=1.85, wl=520.5, pixel_size=119.5, zres=50.4, wl_exc=488.7, na_exc=0.8, wiener=0.45,
                    pinhole_size=1.6)
        for odd in [k for k in frac if k in kw]:
            k0 = dict(kw, **{odd: frac[odd]})
            k1 = {k: float(v) if k in frac else v for k, v in k0.items()}
            a = cls(model=case["model"], oversample_factor=3, **k0)
            b = cls(model=case["model"], oversample_factor=3, **k1)
            close(a.PSF, b.PSF, f"{odd}={frac[odd]}, all others int or float: PSF", 1e-12)
            close(a.OTF, b.OTF, f"{odd}={frac[odd]}, all others int or float: OTF", 1e-12)
            n += 1
        numeric = [k for k in kw if k in ("na", "ni", "wl", "pixel_size", "zres", "wl_exc", "na_exc", "wiener",
                                          "pinhole_size")]

        def make(names):
            k2 = {k: (float(v) if k in names else v) for k, v in kw.items()}
            if "orientations" in kw and "wl" in names:
                k2["orientations"] = [float(v) for v in kw["orientations"]]
            m = cls(model=case["model"], oversample_factor=3, **k2)
            return m.PSF, m.OTF

        base = make(())
        sigs.add(digest(base[0]))
        for r in (1, 2, len(numeric)):
            for names in itertools.combinations(numeric, r):
                for name, a, b in zip(("PSF", "OTF"), make(names), base):
                    close(a, b, f"{names} as float: {name}", 1e-12)
                n += 1
        # the same by assignment afterwards
        for name in ("wl_exc", "na_exc", "wiener", "pinhole_size"):
            if name in kw:
                m = cls(model=case["model"], oversample_factor=3, **kw)
                m.PSF
                setattr(m, name, float(kw[name]))
                close(m.PSF, base[0], f"{name} re-assigned as float", 1e-12)
                n += 1
        return dict(evals=n, sigs=sigs)

    def run_pr(self, case):
        from pyotf.labview import labview
        from pyotf.otf import HanserPSF, apply_aberration
        from pyotf.phaseretrieval import retrieve_phase

        n = case["n"]
        wl, na, ni, res, zres = 520.0, 1.2, 1.33, 130.0, 300.0
        m = apply_aberration(HanserPSF(wl, na, ni, res, n, zrange=[-700, -200, 50, 450]), None,
                             np.array([0, 0.2, -0.3, 0.1, 0.5, 0.4, -0.2]))
        y, x = np.indices((n, n))
        data = m.PSFi * (1 + 0.1 * np.sin(1.3 * y + 2.1 * x)) + 1e-4 * m.PSFi.max()
        ints = np.rint(data / data.max() * 2000).astype(int)
        sigs, k = set(), 0
        for zr in (None, [-700.0, -200.0, 50.0, 450.0]):
            def make(u):
                p = dict(wl=wl * u, na=na, ni=ni, res=res * u, zres=zres * u)
                if zr is not None:
                    p["zrange"] = [z * u for z in zr]
                r = retrieve_phase(data, p, 6, 0, 0, case["phase_only"])
                return r.mag, r.phase, r.mse, r.pupil_diff, r.mse_diff, r.generate_psf(), \
                    r.fit_to_zernikes(4).pcoefs, \
                    np.array(labview(ints, wl * u, na, ni, res * u, zres * u, 4, 0, 0, case["phase_only"]))

            base = make(1.0)
            sigs.add(digest(base[0], base[1]))
            for u in POW2:
                for name, a, b in zip(("mag", "phase", "mse", "pupil_diff", "mse_diff", "generate_psf", "pcoefs",
                                       "labview"), make(u), base):
                    close(a, b, f"zrange={zr} factor {u}: {name}", 1e-12)
                k += 1
        # whole numbers as int or float, one parameter at a time fractional
        whole = dict(wl=520, na=1, ni=2, res=130, zres=300, zrange=[-700, -200, 50, 450])
        for odd, v in [(None, None)] + list(dict(wl=520.5, na=0.9, ni=1.9, res=129.5, zres=300.5,
                                                 zrange=[-700, -200.5, 50, 450]).items()):
            out = []
            for conv in (lambda x: x, float):
                p = dict(whole, **({odd: v} if odd else {}))
                p = {q: [conv(z) for z in x] if q == "zrange" else conv(x) for q, x in p.items()}
                r = retrieve_phase(data, p, 4, 0, 0, case["phase_only"])
                out.append([r.mag, r.phase, r.mse, r.pupil_diff, r.generate_psf(), r.fit_to_zernikes(4).pcoefs,
                            np.array(labview(ints, p["wl"], p["na"], p["ni"], p["res"], p["zres"], 3, 0, 0,
                                             case["phase_only"]))])
            for name, a, b in zip(("mag", "phase", "mse", "pupil_diff", "generate_psf", "pcoefs", "labview"), *out):
                close(a, b, f"{odd}={v}, parameters int or float: {name}", 1e-12)
            k += 1
        return dict(evals=k, sigs=sigs)

    def run_types(self, case):
        from pyotf.otf import HanserPSF, SheppardPSF

        size, zsize = case["size"], case["zsize"]
        sigs, n = set(), 0
        kw = dict(wl=520, na=1, ni=2, res=120, size=size, zres=60, zsize=zsize)
        names = ["wl", "na", "ni", "res", "zres"]
        frac = dict(na=0.9, ni=1.85, wl=520.5, res=119.5, zres=60.4, zrange=[-90, 0.5, 130])
        for odd, v in frac.items():
            if odd == "zrange" and case["kind"] == "s":
                continue
            k0 = dict(kw, **{odd: v})
            k1 = {k: [float(z) for z in v] if k == "zrange" else float(v) if k in names else v
                  for k, v in k0.items()}
            c = SheppardPSF if case["kind"] == "s" else HanserPSF
            for name, a, b in zip(("PSFa", "PSFi", "OTFa", "OTFi"), arrays(c(**k0)), arrays(c(**k1))):
                close(a, b, f"{odd}={v}, all others int or float: {name}", 1e-12)
            n += 1
        for vec, cond in itertools.product(VECS, CONDS):
            def make(conv, which, zr=None, assign=False):
                k2 = {k: (conv(v) if k in which else v) for k, v in kw.items()}
                k2.update(vec_corr=vec, condition=cond)
                if case["kind"] == "s":
                    c = SheppardPSF
                else:
                    c = HanserPSF
                    if zr is not None:
                        k2["zrange"] = zr
                if assign:
                    m = c(**dict(kw, vec_corr=vec, condition=cond))
                    m.PSFi, m.OTFa
                    for k in ("wl", "na", "ni", "res", "zres", "zsize") + (("zrange",) if zr is not None else ()):
                        setattr(m, k, k2[k])
                else:
                    m = c(**k2)
                return arrays(m)

            base = make(int, ())
            sigs.add(digest(base[1]))
            for conv in (float, np.float64):
                for r in (1, 2, 5):
                    for which in itertools.combinations(names, r):
                        for assign in (False, True):
                            for name, a, b in zip(("PSFa", "PSFi", "OTFa", "OTFi"),
                                                  make(conv, which, None, assign), base):
                                close(a, b, f"{which} as {conv.__name__} assign={assign} {vec} {cond}: {name}", 1e-12)
                            n += 1
            if case["kind"] == "h":
                zr = [-300, 0, 150]
                base = make(int, (), zr)
                for z in ([-300.0, 0.0, 150.0], (-300, 0, 150), (-300.0, 0, 150.0), np.array(zr),
                          np.array(zr, dtype=float), np.array(zr, dtype=np.int32), np.array(zr, dtype=np.float32),
                          [np.float64(v) for v in zr], [np.int64(v) for v in zr]):
                    for assign in (False, True):
                        for name, a, b in zip(("PSFa", "PSFi", "OTFa", "OTFi"), make(int, (), z, assign), base):
                            close(a, b, f"zrange as {z!r} assign={assign}: {name}", 1e-12)
                        n += 1
                one = make(int, (), [150])
                for z in (150, 150.0, np.float64(150), np.array(150), np.array([150.0]), (150,)):
                    for name, a, b in zip(("PSFa", "PSFi", "OTFa", "OTFi"), make(int, (), z), one):
                        close(a, b, f"zrange as {z!r}: {name}", 1e-12)
                    n += 1
        return dict(evals=n, sigs=sigs)


CHECK = C()
