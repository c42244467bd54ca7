"""C23: what the plots draw, read back from the axes of the figure."""
import itertools
import math

import numpy as np

from mc import micro, refs
from mc.checks import c15
from mc.core import Check, Violation, close, digest, raises, require

PANELS = {"XY": (0, "y", "x"), "XZ": (1, "z", "x"), "YZ": (2, "y", "z")}
AXES = {"z": 0, "y": 1, "x": 2}
FIG_KW = (dict(), dict(vmin=0.01, vmax=0.9), dict(gamma=0.3, cmap="gray"), dict(origin="lower"),
          dict(interpolation="bicubic", vmin=0.2), dict(vmin=0), dict(vmin=-2.0, vmax=0, gamma=1))


def volume(shape, signed=False):
    i = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    return ((i * 37 + 11 * (i % 5) ** 2 + 3) % 101 + 1) / 102 - (0.5 if signed else 0)


def coords(n, d):
    return (-(n // 2) * d, (n - 1 - n // 2) * d)


def panels(axs):
    out = {}
    for ax in axs:
        t = "".join(c for c in ax.get_title() if c in "XYZ")
        if t:
            require(t not in out, f"two panels titled {t}")
            out[t] = ax
    require(set(out) == set(PANELS), f"panels {sorted(out)}")
    return out


def check_panels(axs, data, mip, steps, fourier, what, kw=()):
    """Every panel shows the stated projection or slice, with the stated extents."""
    shape = data.shape
    if fourier:
        steps = {k: 1 / (shape[AXES[k]] * d) for k, d in steps.items()}
    ps = panels(axs)
    origins = set()
    for t, (_, rows, cols) in PANELS.items():
        ax = ps[t]
        along = AXES[({"x", "y", "z"} - {rows, cols}).pop()]
        want = data.max(along) if mip else np.take(data, shape[along] // 2, along)
        if AXES[rows] > AXES[cols]:
            want = want.T
        require(len(ax.images) == 1, f"{what}{t}: {len(ax.images)} images")
        im = ax.images[0]
        got = np.ma.getdata(im.get_array())
        close(got, want, f"{what}{t} image", 1e-12)
        ext = coords(shape[AXES[cols]], steps[cols]) + coords(shape[AXES[rows]], steps[rows])
        close(np.array(im.get_extent(), dtype=float), np.array(ext), f"{what}{t} extent", 1e-9)
        origins.add(im.origin)
        norm = im.norm
        for k in ("vmin", "vmax"):
            if k in kw:
                require(getattr(norm, k) == kw[k], f"{what}{t}: {k} is {getattr(norm, k)}")
        if "gamma" in kw:
            require(norm.gamma == kw["gamma"], f"{what}{t}: gamma is {norm.gamma}")
        if "cmap" in kw:
            require(im.get_cmap().name == kw["cmap"], f"{what}{t}: colour map {im.get_cmap().name}")
    require(len(origins) == 1, what + f"image origins {origins}")
    # shared axes show the same range in the same direction
    require(ps["XY"].get_xlim() == ps["XZ"].get_xlim(), what + "x ranges differ")
    require(ps["XY"].get_ylim() == ps["YZ"].get_ylim(), what + "y ranges differ")
    return ps


def check_support(ps, na, ni, wl, what):
    from matplotlib import patches

    cs = [p for p in ps["XY"].patches if isinstance(p, patches.Circle)]
    require(len(cs) == 1, what + f"{len(cs)} circles on XY")
    close(np.array(cs[0].center, dtype=float), np.zeros(2), what + "circle centre", 1e-9, 1 / wl)
    close(float(cs[0].radius), 2 * na / wl, what + "circle radius", 1e-9)
    # arcs from the origin to the lateral cutoff, bulging by the axial half extent
    kmax, bulge = 2 * min(na, ni) / wl, (ni - math.sqrt(max(0, ni * ni - na * na))) / wl
    for t in ("XZ", "YZ"):
        arcs = []
        for p in ps[t].patches:
            if not isinstance(p, patches.Wedge):
                continue
            pts = []
            for a in (p.theta1, (p.theta1 + p.theta2) / 2, p.theta2):
                a = math.radians(a)
                v = (p.center[0] + p.r * math.cos(a), p.center[1] + p.r * math.sin(a))
                pts.append(v if t == "XZ" else v[::-1])  # (lateral, axial)
            require(p.theta2 - p.theta1 <= 180 + 1e-9, what + f"{t}: arc of {p.theta2 - p.theta1} degrees")
            arcs.append(pts)
        require(len(arcs) == 4, what + f"{len(arcs)} arcs on {t}")
        for sx in (1, -1):
            for sz in (1, -1):
                ends = {(0.0, 0.0), (sx * kmax, 0.0)}
                mid = (sx * kmax / 2, sz * bulge)

                def near(a, b):
                    return math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-6 / wl

                ok = any(near(a[1], mid) and all(any(near(e, x) for x in (a[0], a[2])) for e in ends) for a in arcs)
                require(ok, what + f"{t}: no arc from the origin to {sx * kmax:.4g} through {mid}")


def nearest_slice(x, w, n):
    lo = x - w // 2
    return range(max(lo, 0), min(lo + w, n))


def crop(psf, wl, na, ni, zres, res):
    lat = refs.nearest_even(wl / 2 / na / res * 32)
    ax = refs.nearest_even(wl / (ni - math.sqrt(ni * ni - na * na)) / zres * 16)
    loc = np.unravel_index(psf.argmax(), psf.shape)
    idx = [list(nearest_slice(int(c), w, n)) for c, w, n in zip(loc, (ax, lat, lat), psf.shape)]
    return psf[np.ix_(*idx)]


class C(Check):
    id = "C23"
    chunk = 2
    rule = ("Every volume shape x projection or slice x display option for the two plot functions; every model and "
            "microscope type x size parity x plane specification for their plot methods; every plane list for the "
            "uniformity guard; every retrieval result x number of modes; z_squeeze on a grid. Outcome signature: "
            "drawn arrays and extents.")
    assumptions = ["what is drawn is what the figure's axes, images, patches and titles say; nothing is rasterised"]

    def cases(self, tier):
        th = tier == "thorough"
        r = range(2, 7) if th else range(2, 5)
        for nz, ny, nx in itertools.product(r, r, r):
            for mip in (True, False):
                yield dict(t="psf", shape=(nz, ny, nx), mip=mip, k=(nz + ny + nx) % len(FIG_KW), steps=(nz + nx) % 3)
            if ny == nx:
                yield dict(t="otf", shape=(nz, ny, nx), k=(nz + ny) % 4, steps=nz % 3)
        for shape in ((1, 4, 4), (1, 3, 5), (1, 2, 2), (3, 1, 4), (4, 5, 1), (1, 1, 1)):
            for mip in (True, False):
                yield dict(t="psf", shape=shape, mip=mip, k=0, steps=1)
        for k in range(len(FIG_KW)):
            for mip in (True, False, None):
                yield dict(t="psf", shape=(3, 4, 5), mip=mip, k=k, steps=k % 3)
        for kind in "hs":
            for size in (5, 6, 9) if not th else range(4, 12):
                for zi in range(4):
                    yield dict(t="model", kind=kind, size=size, zi=zi)
        for kind in micro.TYPES:
            for model in ("hanser", "sheppard"):
                for size in (5, 6) if not th else (4, 5, 6, 7, 8):
                    for f in (1, 3):
                        for z in (0, 1, 2, 3, 4) if model == "hanser" else (0,):
                            yield dict(t="mic", kind=kind, model=model, size=size, f=f, z=z)
        yield dict(t="big")
        for u in (1.0, 1e-3, 1e-9, 1e3):
            yield dict(t="guard", u=u)
        yield dict(t="squeeze")
        for n in (5, 8) if not th else range(4, 11):
            for po in (False, True):
                yield dict(t="pr", n=n, nz=3, z="uniform", kind="ab", po=po, deep=th)
                yield dict(t="pr", n=n + 3, nz=1 + n % 2, z="uniform", kind="spot", po=po, deep=th)

    def run(self, case):
        from matplotlib import pyplot as plt

        try:
            return getattr(self, "run_" + case["t"])(case)
        finally:
            plt.close("all")

    STEPS = (dict(z=300.0, y=130.0, x=130.0), dict(z=0.1, y=0.25, x=0.25), dict(z=7, y=3, x=3))

    def run_psf(self, case):
        from matplotlib import pyplot as plt
        from pyotf.display import psf_plot

        sigs = set()
        for form in ("plain", "signed", "counts", "columns"):
            d = volume(case["shape"], form == "signed")
            if form == "counts":
                d = np.rint(d * 250).astype(np.uint8)
            elif form == "columns":
                d = np.asfortranarray(d.astype(np.float32))
            keep = d.copy()
            st, kw = self.STEPS[case["steps"]], FIG_KW[case["k"]]
            extra = {} if case["mip"] is None else dict(mip=case["mip"])
            mine = None
            if case["k"] % 2:
                mine = extra["fig"] = plt.figure()
                extra["loc"] = (111, 122)[case["steps"] % 2]
            fig, axs = psf_plot(d, zres=st["z"], res=st["x"], **extra, **kw)
            if mine is not None:
                require(fig is mine and all(a.get_figure() is mine for a in axs), "not drawn on the given figure")
            ps = check_panels(axs, keep, case["mip"] is not False, st, False, f"{case}: {form}: ", kw)
            require(np.array_equal(d, keep), "the data changed")
            sigs.add(digest(*[np.asarray(ps[t].images[0].get_array()) for t in PANELS], np.array(case["k"])))
            plt.close("all")
        return dict(evals=len(sigs), sigs=sigs)

    def run_otf(self, case):
        from pyotf.display import otf_plot

        d = volume(case["shape"])
        keep = d.copy()
        st = self.STEPS[case["steps"]]
        kw = (dict(), dict(vmin=1e-3, vmax=0.5), dict(cmap="gray"), dict(origin="lower", vmin=0.1))[case["k"]]
        sigs, runs = set(), 0
        for na, ni, wl in ((0.85, 1.0, 520), (1.2, 1.33, 610.0), (1.0, 1.0, 2), (0.3, 1.5, 0.5)):
            fig, axs = otf_plot(d, na=na, ni=ni, wl=wl, zres=st["z"], res=st["x"], **kw)
            what = f"{case} na={na} ni={ni} wl={wl}: "
            ps = check_panels(axs, keep, False, st, True, what, kw)
            check_support(ps, na, ni, wl, what)
            require(np.array_equal(d, keep), "the data changed")
            sigs.add(digest(np.array([na, ni, wl]), *[np.asarray(ps[t].images[0].get_array()) for t in PANELS]))
            runs += 1
        return dict(evals=runs, sigs=sigs)

    def both(self, obj, psf, otf, wl, na, ni, zres, res, what):
        """Plot an object's PSF and OTF and compare with its arrays."""
        st = dict(z=zres, y=res, x=res)
        fig, axs = obj.plot_psf()
        check_panels(axs, crop(psf, wl, na, ni, zres, res), True, st, False, what + "plot_psf: ")
        fig, axs = obj.plot_psf(mip=False, vmax=0.7)
        check_panels(axs, crop(psf, wl, na, ni, zres, res), False, st, False, what + "plot_psf(mip=False): ",
                     dict(vmax=0.7))
        mod = abs(otf)
        mod = np.maximum(mod / mod.max(), np.finfo(float).eps)
        for kw in ({}, dict(vmin=1e-2, cmap="gray")):
            fig, axs = obj.plot_otf(**kw)
            ps = check_panels(axs, mod, False, st, True, what + f"plot_otf({kw}): ", kw or dict(vmin=1e-4))
            check_support(ps, na, ni, wl, what)

    def run_model(self, case):
        from mc import objs

        kind, n = case["kind"], case["size"]
        z = [dict(zsize=5, zres=150), dict(zsize=6, zres=90.0), dict(zsize=7),
             dict(zrange=[-250.0, -50.0, 150.0, 350.0]) if kind == "h" else dict(zsize=9, zres=170)][case["zi"]]
        p = dict(wl=520, na=1.2, ni=1.33, res=100, size=n, vec_corr=("none", "total")[n % 2], **z)
        if kind == "s":
            p["zsize"] += 3
        m = objs.cls(kind)(**p)
        zres = 200.0 if "zrange" in z else z.get("zres", 100)
        before = {k: np.array(getattr(m, k)) for k in ("PSFi", "OTFi", "PSFa")}
        if not before["PSFi"].any():
            return dict(evals=0, skipped=1)
        par = {k: getattr(m, k) for k in objs.PARAMS}
        self.both(m, before["PSFi"], before["OTFi"], 520, 1.2, 1.33, zres, 100, f"{case}: ")
        for k, v in before.items():
            require(np.array_equal(getattr(m, k), v), f"{k} changed by plotting")
        for k, v in par.items():
            require(getattr(m, k) == v, f"{k} changed by plotting")
        return dict(evals=4, sig=digest(before["PSFi"]))

    def run_mic(self, case):
        base = dict(micro.OPT, model=case["model"], size=case["size"], pixel_size=90, oversample_factor=case["f"],
                    **(dict(zsize=7, zres=(120, 70.0)[case["size"] % 2]), dict(zrange=(-250.0, -50.0, 150.0, 350.0)),
                       dict(zrange=(220.0, 60.0, -100.0), zres=50), dict(zsize=2, zres=140.0),
                      dict(zsize=1, zres=140))[case["z"]])
        zres = (base.get("zres"), 200.0, 160.0, 140.0, 140.0)[case["z"]]
        if not micro.psfi(base).any():
            return dict(evals=0, skipped=1)
        s = micro.own(case["kind"])
        if "SIM" in case["kind"]:
            s.update(dc_suppress=False, wiener=None)
        m = micro.make(case["kind"], base, s)
        psf, otf = np.array(m.PSF), np.array(m.OTF)
        if not np.isfinite(psf).all():
            return dict(evals=0, skipped=1)
        self.both(m, psf, otf, base["wl"], base["na"], base["ni"], zres, 90, f"{case}: ")
        require(np.array_equal(m.PSF, psf) and np.array_equal(m.OTF, otf), "changed by plotting")
        if case["z"] in (1, 2):
            # planes assigned later, and planes without a spacing
            self.assign(m, (-70.0, 10.0, 90.0, 170.0))
            self.both(m, np.array(m.PSF), np.array(m.OTF), base["wl"], base["na"], base["ni"], 80.0, 90,
                      f"{case}, planes assigned: ")
            self.assign(m, (-70.0, 10.0, 100.0, 170.0))
            for name in ("plot_psf", "plot_otf"):
                raises(RuntimeError, getattr(m, name), f"{name} of {case['kind']} with irregular planes")
        return dict(evals=4, sig=digest(psf))

    @staticmethod
    def assign(m, planes):
        """The planes of both models of a confocal microscope, whose caches are then dropped."""
        m.model.zrange = planes
        if hasattr(m, "model_exc"):
            m.model_exc.zrange = planes
        for name in ("PSF", "OTF"):
            m.__dict__.pop(name, None)

    def run_big(self, case):
        """Volumes larger than the displayed region, so that cropping acts."""
        from pyotf.otf import HanserPSF
        from pyotf.microscope import WidefieldMicroscope

        runs, sigs = 0, set()
        for size, zsize, zres in ((45, 3, 100), (48, 12, 6000), (40, 9, 10000.0), (71, 5, 12000)):
            m = HanserPSF(520, 0.85, 1.0, 300, size, zres=zres, zsize=zsize)
            self.both(m, np.array(m.PSFi), np.array(m.OTFi), 520, 0.85, 1.0, zres, 300, f"size {size}: ")
            w = WidefieldMicroscope(model="hanser", na=0.85, ni=1.0, wl=520, size=size, pixel_size=305,
                                    oversample_factor=1, zsize=zsize, zres=zres)
            self.both(w, np.array(w.PSF), np.array(w.OTF), 520, 0.85, 1.0, zres, 305, f"widefield {size}: ")
            runs += 8
            sigs.add(digest(np.array(m.PSFi)))
        return dict(evals=runs, sigs=sigs)

    def run_guard(self, case):
        from pyotf.otf import HanserPSF

        u, runs = case["u"], 0
        vals = [-300.0, -100.0, 0.0, 100.0, 105.0, 112.0]

        def uniform(z):
            d = [b - a for a, b in zip(z, z[1:])]
            return len(d) >= 2 and max(d) - min(d) < 1e-6 and d[0] != 0

        for k in (1, 2, 3, 4):
            for z in itertools.combinations(vals, k):
                m = HanserPSF(520 * u, 0.85, 1.0, 130 * u, 5, zrange=[v * u for v in z])
                for name in ("plot_psf", "plot_otf"):
                    if not uniform(z):
                        raises(RuntimeError, getattr(m, name), f"{name} with planes {z} times {u}")
                        require(np.array_equal(m.zrange, np.array([v * u for v in z])), "planes changed")
                    else:
                        getattr(m, name)()
                    runs += 1
        for z in ([0.0, 5.0, 10.0, 15.0], [400.0, 100.0, -200.0], [10.0, 11.0, 12.0]):
            m = HanserPSF(520 * u, 0.85, 1.0, 130 * u, 5, zrange=[v * u for v in z])
            for name in ("plot_psf", "plot_otf"):
                getattr(m, name)()
                runs += 1
        for n in (1, 2, 3, 4):
            m = HanserPSF(520 * u, 0.85, 1.0, 130 * u, 5, zsize=n)
            for name in ("plot_psf", "plot_otf"):
                if n < 3:
                    raises(RuntimeError, getattr(m, name), f"{name} with {n} planes")
                else:
                    getattr(m, name)()
                runs += 1
        return dict(evals=runs, sigs=range(runs))

    def run_squeeze(self, case):
        from pyotf.display import z_squeeze

        ns = (1, 1.0, 1.33, 1.4, 1.515, 1.9, 0.8, 2, 1.518, 1.5151, 1.515000001, 1.0001, 1.34)
        runs, sigs = 0, set()
        for na in (0.2, 0.5, 0.85, 1.0, 1.2, 1.33, 1.45):
            for a, b in itertools.product(ns, ns):
                got = z_squeeze(a, b, na)
                ext = [n - math.sqrt(max(0, n * n - na * na)) for n in (a, b)]
                close(float(got), 1.0 if a == b else ext[0] / ext[1], f"z_squeeze({a}, {b}, {na})", 1e-9)
                close(float(got) * float(z_squeeze(b, a, na)), 1.0, f"z_squeeze({a}, {b}, {na}) reciprocal", 1e-9)
                runs += 1
                sigs.add(round(float(got), 12))
        return dict(evals=runs, sigs=sigs)

    def run_pr(self, case):
        from matplotlib import pyplot as plt
        from pyotf.phaseretrieval import retrieve_phase

        r = retrieve_phase(c15.make(case), c15.params(case), 4, 0, 0, case["po"])
        keep = {k: np.array(getattr(r, k)) for k in ("mag", "phase", "mse", "mse_diff", "pupil_diff")}
        runs = 0

        def pupil(axs, mag, phase, what):
            t = {("phase" if "hase" in a.get_title() else "mag" if "agnitude" in a.get_title() else "?"): a
                 for a in axs}
            require(set(t) == {"phase", "mag"}, what + f"panels {sorted(t)}")
            a = np.ma.array(t["phase"].images[0].get_array())
            mask = np.ma.getmaskarray(a)
            require(np.array_equal(mask, mag == 0), what + "blank phase pixels")
            close(np.where(mask, 0, a.data), np.where(mask, 0, phase), what + "phase image", 1e-12)
            b = t["mag"].images[0].get_array()
            require(not np.ma.getmaskarray(b).any(), what + "blank magnitude")
            close(np.ma.getdata(b), mag, what + "magnitude image", 1e-12)

        fig, axs = r.plot()
        pupil(axs, keep["mag"], keep["phase"], "plot: ")
        fig, given = plt.subplots(1, 2)
        f2, axs = r.plot(axs=given)
        require(f2 is fig and list(axs) == list(given), "plot(axs) drew elsewhere")
        pupil(axs, keep["mag"], keep["phase"], "plot(axs): ")
        require("hase" in given[0].get_title(), "plot(axs): the phase goes first")
        # short and long runs, in which one or the other series ends lower
        for it in (4, 1, 2, 3, 6, 9, 15, 30, 60):
            rr = r if it == 4 else retrieve_phase(c15.make(case), c15.params(case), it, 0, 0, case["po"])
            rec = {k: np.array(getattr(rr, k)) for k in ("mse", "mse_diff", "pupil_diff")}
            fig, axs = rr.plot_convergence()
            titles = [ax.get_title() for ax in axs]
            require(len(set(titles)) == 3, f"plot_convergence: titles {titles}")
            for ax, t in zip(axs, titles):
                key = "mse" if "Mean" in t else "mse_diff" if "MSE" in t else "pupil_diff"
                t += f" after {it}"
                require(len(ax.lines) == 1, t + f": {len(ax.lines)} lines")
                x, y = ax.lines[0].get_data()
                close(np.asarray(x, dtype=float), np.arange(len(rec[key]), dtype=float), t + " abscissa", 1e-12)
                close(np.asarray(y, dtype=float), rec[key], t, 1e-12)
                require(ax.get_yscale() == "log", t + " scale")
            plt.close(fig)
            runs += 1
        runs += 3
        sigs = {digest(keep["phase"])}
        names = {j: n for n, (a, b) in refs.NAMES.items() for j in range(1, 16) if refs.noll(j) == (a, b)}
        for k in list(range(1, 18)) + ([20, 36, 66, 120] if case["deep"] else [36]):
            zd = r.fit_to_zernikes(k)
            mc, pc = np.array(zd.mcoefs), np.array(zd.pcoefs)
            fig, axs = zd.plot_coefs()
            seen = set()
            for ax in axs:
                want = mc if "agnitude" in ax.get_title() else pc
                seen.add(want is mc)
                bars = {round(p.get_x() + p.get_width() / 2, 6): p.get_height() for p in ax.patches}
                require(set(bars) == set(range(1, k + 1)), f"plot_coefs of {k}: bars at {sorted(bars)[:20]}")
                close(np.array([bars[j] for j in range(1, k + 1)]), want, f"plot_coefs of {k}", 1e-12)
            require(len(seen) == 2, f"plot_coefs of {k}: panels")
            fig, ax = zd.plot_named_coefs()
            fig.canvas.draw()
            ticks = {round(float(x), 6): t.get_text() for x, t in zip(ax.get_xticks(), ax.get_xticklabels())}
            bars = {round(p.get_x() + p.get_width() / 2, 6): p.get_height() for p in ax.patches}
            require(set(bars) == set(range(5, min(k, 15) + 1)), f"named coefficients of {k}: bars at {sorted(bars)}")
            for x, h in bars.items():
                require(ticks.get(x, "").lower() == names[int(x)],
                        f"named coefficients of {k}: bar {x} labelled {ticks.get(x)!r}, not {names[int(x)]!r}")
                close(float(h), float(pc[int(x) - 1]), f"named coefficients of {k}: {ticks[x]}", 1e-12, 1.0)
            for kw in ({}, dict(sphase=slice(4, None)), dict(smag=slice(None, 1)),
                       dict(smag=slice(None, 4), sphase=slice(1, 6, 2)))[: 4 if k % 4 == 1 else 1]:
                fig, axs = zd.plot(**kw)
                sm, sp = kw.get("smag", slice(None)), kw.get("sphase", slice(None))
                pupil(axs, np.array(zd.mag(sm)), np.array(zd.phase(sp)), f"decomposition of {k} plot({kw}): ")
                runs += 1
            plt.close("all")
            require(np.array_equal(zd.mcoefs, mc) and np.array_equal(zd.pcoefs, pc), "coefficients changed by plotting")
            runs += 2
            sigs.add(digest(pc))
        for k, v in keep.items():
            require(np.array_equal(getattr(r, k), v, equal_nan=True), f"{k} changed by plotting")
        return dict(evals=runs, sigs=sigs)


CHECK = C()
