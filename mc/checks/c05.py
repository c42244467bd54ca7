"""C05: rejected values raise and leave object untouched; values inside the limits are accepted."""
import itertools

import numpy as np

from mc import objs, refs
from mc.core import ORACLE, Check, Violation, close, require

BAD = (TypeError, ValueError)
# configurations wl, na, ni (different limits)
OPTICS = [(512, 1, 1.5), (0.6, 1.2, 1.33), (512.0, 0.25, 1), (700, 1.49, 1.515)]
NONNUM = ["abc", "", "5", None, (), [], [500], {}, "1e3", b"5"]


def bad_values(kind, p, wl, na, ni):
    abbe, zlim = wl / (2 * na), wl / (2 * ni)
    if p in ("wl", "na", "ni"):
        return NONNUM + [-1, -0.5, -1e-12, -520, float("-inf"), 1j, 500 + 0j]
    if p in ("size", "zsize"):
        return NONNUM + [-1, -4, 4.5, 0.5, -3.5, 1j, float("inf"), 4.0, 8.0]
    if p == "res":
        return NONNUM + [0, 0.0, -1, -1e-9, -abbe / 2, -abbe * 1.5, -10 * abbe, abbe * (1 + 1e-9), abbe * 1.001,
                         2 * abbe, 1e9, float("inf"), float("-inf"), float("nan"), 1j] + \
            ([abbe] if float(wl) == 512 else [])
    if p == "zres":
        b = NONNUM + [0, 0.0, -1, -1e-9, -zlim, float("-inf"), float("nan"), 1j]
        if kind == "s":
            b += [zlim * (1 + 1e-9), zlim * 1.01, 5 * zlim, float("inf")]
            if float(wl) == 512 and ni == 1:
                b += [zlim]
        return b
    if p == "vec_corr":
        return ["", "X", "None", "xy", "totals", None, 0, 1, True, [], {}, ("x",), b"x", "x "]
    if p == "condition":
        return ["", "Sine", "abbe", "x", None, 0, 1, False, [], {}, "sine ", "total", b"sine"]
    if p == "dual":
        return [0, 1, None, "True", "", [], [True], 1.0, 2, -1]
    raise KeyError(p)


def good_values(kind, p, wl, na, ni):
    abbe, zlim = wl / (2 * na), wl / (2 * ni)
    if p == "wl":
        return [wl, wl * 1.5, int(np.ceil(wl)) + 1, 1e-6, 1e6]
    if p == "na":
        return [na, na / 2, 1e-3, 1] if ni >= 1 else [na]
    if p == "ni":
        return [ni, 2, 1.9, float(ni) + 0.01]
    if p in ("size", "zsize"):
        return [3, 4, 5, 8] if kind == "s" else [1, 2, 3, 4, 7]
    if p == "res":
        return [abbe * (1 - 1e-9), abbe * 0.999, abbe / 2, abbe / 3, abbe * 1e-6] + \
            ([int(abbe) - 1] if abbe > 2 else [])
    if p == "zres":
        return ([zlim * (1 - 1e-9), zlim * 0.99, zlim / 3] if kind == "s" else [zlim * 50, zlim, 1000, 1]) + \
            [zlim * 1e-6]
    if p == "vec_corr":
        return ["none", "x", "y", "z", "total"]
    if p == "condition":
        return ["none", "sine", "herschel"]
    if p == "dual":
        return [True, False]
    raise KeyError(p)


def refuse(f, what, exc=BAD):
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: {type(e).__name__} ({e}) instead of TypeError or ValueError")
    raise Violation(f"{what}: accepted")


class C(Check):
    id = "C05"
    level = "exploration"
    chunk = 1
    rule = ("Every settable parameter x catalogue of invalid and boundary-valid values x every read-state of the "
            "object (all subsets of arrays read, with and without an applied pupil, uniform and explicit planes) x "
            "four optical configurations reached directly and by assignments; non-trivial: distinct "
            "(configuration, read-state, parameter, value) rejections.")
    assumptions = ["NaN wavelengths, NAs and indices, booleans as numbers and numpy scalars are left undefined"]

    def cases(self, tier):
        for kind in "hs":
            for o in OPTICS:
                yield dict(t="construct", kind=kind, o=o)
                yield dict(t="good", kind=kind, o=o)
                for via in (False, True):
                    yield dict(t="moved", kind=kind, o=o, via=via)
                for reads in itertools.product((0, 1), repeat=4):
                    for pup in ((0, 1) if kind == "h" else (0,)):
                        for zr in ((0, 1) if kind == "h" else (0,)):
                            yield dict(t="assign", kind=kind, o=o, reads=reads, pup=pup, zr=zr)
        yield dict(t="micro")

    def params(self, kind, o, size=5):
        wl, na, ni = o
        return dict(wl=wl, na=na, ni=ni, res=wl / (2 * na) * 0.5, size=size, zres=wl / (2 * ni) * 0.5, zsize=4,
                    vec_corr="none", condition="sine")

    def names(self, kind):
        return objs.PARAMS + (("dual",) if kind == "s" else ())

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def run_construct(self, case):
        kind, o = case["kind"], tuple(case["o"])
        n, sigs = 0, set()
        base = self.params(kind, o)
        for p in self.names(kind):
            for v in bad_values(kind, p, *o):
                if v is None and p in ("zres", "zsize"):
                    continue  # means: use the default
                kw = dict(base)
                kw[p] = v
                refuse(lambda: objs.cls(kind)(**kw), f"{kind} constructor {p}={v!r}")
                pos = [kw.pop(k) for k in ("wl", "na", "ni", "res", "size")]
                refuse(lambda: objs.cls(kind)(*pos, **kw), f"{kind} positional constructor {p}={v!r}")
                n += 2
                sigs.add((kind, o, p, repr(v)))
            for v in good_values(kind, p, *o):
                kw = dict(base)
                kw[p] = v
                if p in ("wl", "na", "ni"):  # keep the sampling valid
                    kw["res"] = kw["wl"] / (2 * kw["na"]) / 2
                    kw["zres"] = kw["wl"] / (2 * kw["ni"]) / 2
                m = objs.cls(kind)(**kw)
                for k, w in kw.items():
                    require(objs.same(getattr(m, k), w), f"{kind} constructor {p}={v!r}: {k} reads "
                            f"{getattr(m, k)!r}, not {w!r}")
                n += 1
        return dict(evals=n, sigs=sigs)

    def run_good(self, case):
        """Accepted assignments read back, from several read-states."""
        kind, o = case["kind"], tuple(case["o"])
        n, sigs = 0, set()
        for p in self.names(kind):
            for v in good_values(kind, p, *o):
                for read in (False, True):
                    m = objs.build(kind, self.params(kind, o))
                    if read:
                        m.PSFi, m.OTFa
                    setattr(m, p, v)
                    require(objs.same(getattr(m, p), v), f"{kind} {p}={v!r} reads {getattr(m, p)!r}")
                    for q, w in self.params(kind, o).items():
                        require(q == p or objs.same(getattr(m, q), w), f"{kind} {p}={v!r} changed {q}")
                    n += 1
                    sigs.add((kind, o, p, repr(v)))
        return dict(evals=n, sigs=sigs)

    def run_moved(self, case):
        """The limits follow the current wavelength, NA and index."""
        kind, o = case["kind"], tuple(case["o"])
        n, sigs = 0, set()
        for o2 in OPTICS:
            wl, na, ni = o2
            m = objs.build(kind, self.params(kind, o))
            if case["via"]:
                m.PSFi, m.OTFi
            for p, v in zip(("wl", "na", "ni"), o2):
                setattr(m, p, v)
            for p in ("res", "zres"):
                for v in bad_values(kind, p, *o2):
                    before = getattr(m, p)
                    refuse(lambda: setattr(m, p, v), f"{kind} {p}={v!r} after moving {o} -> {o2}")
                    require(objs.same(getattr(m, p), before), f"{kind} rejected {p}={v!r} stored")
                    n += 1
                for v in good_values(kind, p, *o2):
                    setattr(m, p, v)
                    require(objs.same(getattr(m, p), v), f"{kind} {p}={v!r} reads {getattr(m, p)!r}")
                    n += 1
                    sigs.add((kind, o, o2, p, repr(v)))
        return dict(evals=n, sigs=sigs)

    def run_assign(self, case):
        kind, o = case["kind"], tuple(case["o"])
        base = self.params(kind, o)
        zr = [-0.7 * o[0], 0.2 * o[0], 1.1 * o[0]] if case["zr"] else None
        pup = 1 if case["pup"] else None
        expect = ORACLE(objs.fresh, kind, base, zr, pup)
        n, sigs = 0, set()
        for p in self.names(kind):
            values = bad_values(kind, p, *o)
            for v in values:
                m = objs.build(kind, base, zr, pup)
                what = f"{kind} {p}={v!r} reads={case['reads']} pupil={pup} zrange={zr is not None}: "
                for r, a in zip(case["reads"], objs.ARRAYS):
                    if r:
                        getattr(m, a)
                zold = np.array(m.zrange) if kind == "h" else None
                refuse(lambda: setattr(m, p, v), what)
                for q, w in base.items():
                    require(objs.same(getattr(m, q), w), what + f"{q} is now {getattr(m, q)!r}")
                if kind == "h":
                    require(objs.same(np.array(m.zrange), zold), what + "zrange changed")
                for a, e in zip(objs.ARRAYS, expect):
                    close(getattr(m, a), e, what + a)
                n += 1
                sigs.add((kind, o, tuple(case["reads"]), pup, p, repr(v)))
        return dict(evals=n, sigs=sigs)

    def run_micro(self, case):
        from pyotf import microscope as M

        kw = dict(na=1.2, ni=1.33, wl=520, size=4, pixel_size=80)
        types = [(M.WidefieldMicroscope, {}), (M.ApotomeMicroscope, {}),
                 (M.ConfocalMicroscope, dict(wl_exc=488, pinhole_size=1)),
                 (M.SIM2DMicroscope, dict(na_exc=1.0, wl_exc=488, wiener=0.1, dc_suppress=True, orientations=(0, 1))),
                 (M.SIM3DMicroscope, dict(na_exc=1.0, wl_exc=488, wiener=0.1, dc_suppress=True, orientations=(0, 1))),
                 (M.LatticeSIMMicroscope, dict(na_exc=1.0, wl_exc=488, wiener=0.1, dc_suppress=True))]
        n, sigs = 0, set()
        for t, extra in types:
            full = dict(kw, **extra)
            for model in ("hanser", "sheppard", "Hanser", "SHEPPARD"):
                for of in (1, 3, 5):
                    t(model=model, oversample_factor=of, **full)
                    n += 1
                for of in (0, 2, 4, 6, 8, 10, 12, 16, 64, 100, -1, -2, -3, -9, 1.5, "1", None, 2.5, 3.0):
                    refuse(lambda: t(model=model, oversample_factor=of, **full),
                           f"{t.__name__} oversample_factor={of!r}", Exception)
                    sigs.add((t.__name__, model, repr(of)))
                    n += 1
                # invalid optical parameters reach the model
                for p, v in (("na", -1), ("ni", "a"), ("wl", -520), ("wl", None), ("size", 4.5), ("size", -4),
                             ("pixel_size", 0), ("pixel_size", -80), ("pixel_size", 520 / 2.4 * 3.1),
                             ("vec_corr", "q"), ("condition", "q")):
                    refuse(lambda: t(model=model, oversample_factor=3, **dict(full, **{p: v})),
                           f"{t.__name__} {p}={v!r}", Exception)
                    sigs.add((t.__name__, model, p, repr(v)))
                    n += 1
            for model in ("", "hansen", "hanser ", "gauss", None, 3, "sheppardpsf"):
                refuse(lambda: t(model=model, oversample_factor=1, **full), f"{t.__name__} model={model!r}", Exception)
                n += 1
        return dict(evals=n, sigs=sigs)


CHECK = C()
