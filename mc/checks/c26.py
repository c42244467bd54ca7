"""C26: all short sequences of public calls, with arguments and results scribbled over in between."""
import copy
import decimal
import gc
import importlib
import locale
import logging
import os
import pickle
import random
import signal
import sys
import warnings

import numpy as np
import scipy.fft

from mc import micro, objs, refs, sched
from mc.checks import c15
from mc.checks.c25 import same
from mc.core import ORACLE, Check, Violation, require

H = dict(wl=520, na=1.2, ni=1.33, res=180, size=5, zsize=3, zres=150)
V = (0, 1, 2)  # two values of one shape, and another shape


def arr(v, *shape, kind=float, mul=7919):
    if v == 2:
        shape = shape[:-1] + (shape[-1] + 1,)
    a = np.arange(int(np.prod(shape))).reshape(shape) * (mul if v != 1 else 4421) % (101 if v != 1 else 97)
    return a.astype(kind) if kind is not complex else a + 1j * (a[..., ::-1] % 13)


def sq(v, *lead, kind=float):
    n = 5 if v == 2 else 4
    return arr(0 if v == 2 else v, *lead, n, n, kind=kind)


def mod(name, fn):
    return getattr(importlib.import_module("pyotf." + name), fn)


def u(fn, *extra, **kw):
    return lambda a: mod("utils", fn)(*a, *extra, **kw)


# ---- calls: arguments for a variant, the call, and what is read from what it returns (None: it is the result)

CALLS = {}


def call(name, mk, f, read=None, slow=False):
    CALLS[name] = (mk, f, read, slow)


call("easy_fft", lambda v: [arr(v, 3, 4)], u("easy_fft"))
call("easy_fft axes", lambda v: [arr(v, 2, 3, 4, kind=complex)], u("easy_fft", axes=(0, 2)))
call("easy_ifft", lambda v: [arr(v, 3, 4, kind=complex)], u("easy_ifft"))
call("easy_fft list", lambda v: [arr(v, 3, 4).tolist()], u("easy_fft"))
call("cart2pol", lambda v: [arr(v, 2, 3) - 40, arr(1 if v == 0 else v, 2, 3) - 50], u("cart2pol"))
call("psqrt", lambda v: [arr(v, 3, 3) - 50], u("psqrt"))
call("psqrt positive", lambda v: [arr(v, 3, 3) + 1], u("psqrt"))
call("center_data", lambda v: [arr(v, 4, 5)], u("center_data"))
call("center_data centred", lambda v: [np.eye(3 + v)[(3 + v) // 2][:, None] * np.eye(3 + v)[(3 + v) // 2]],
     u("center_data"))
call("remove_bg", lambda v: [arr(v, 3, 5, kind=int) % 7, 1.5 + v], u("remove_bg"))
call("remove_bg zero", lambda v: [arr(v, 3, 5, kind=int) % 7, 0], u("remove_bg"))
call("fft_pad same", lambda v: [arr(v, 4, 5), [4, 5 + (v == 2)]], u("fft_pad"))
call("fft_pad crop", lambda v: [arr(v, 6, 5), [3, 4]], u("fft_pad"))
call("fft_pad grow", lambda v: [arr(v, 3, 4), [5, 7]], u("fft_pad", mode="constant"))
call("fft_pad default", lambda v: [arr(v, 4, 4)], u("fft_pad"))
call("slice_maker", lambda v: [[3, 4 + v], [2 + v, 3]], u("slice_maker"))
call("bin sum", lambda v: [arr(v, 4, 6), None, [2, 3]], u("bin_ndarray"))
call("bin one", lambda v: [arr(v, 4, 6), None, [1, 1]], u("bin_ndarray"))
call("bin mean", lambda v: [arr(v if v < 2 else 0, 4, 6), [2, 2 + (v == 2)]], u("bin_ndarray", operation="mean"))
call("radial", lambda v: [arr(v, 5, 5)], u("radial_profile"))
call("radial centre", lambda v: [arr(v, 5, 4, kind=complex), np.array([1.0, 2.0 + v])], u("radial_profile"))
call("prep same", lambda v: [sq(v, 2, kind=int)], u("prep_data_for_PR", multiplier=0.1))
call("prep crop", lambda v: [sq(v, 2, kind=np.uint16), 3], u("prep_data_for_PR"))
call("prep pad", lambda v: [arr(v, 2, 4, 3, kind=int), 6], u("prep_data_for_PR"))


def z(*extra, **kw):
    return lambda a: mod("zernike", "zernike")(*a, *extra, **kw)


def rt(v):
    r, t = np.meshgrid(np.linspace(0, 1.2, 4 + (v == 2)), np.linspace(-3 + (v == 1), 3, 3))
    return [r, t]


call("zernike noll", lambda v: rt(v) + [np.array([1, 4, 11 + v])], z())
call("zernike one", lambda v: rt(v) + [1 + 3 * v], z(norm=False))
call("zernike nm", lambda v: rt(v) + [np.array([2, 3]), np.array([-2, 1 + 2 * (v == 1)])], z())
call("zernike list", lambda v: [x.tolist() for x in rt(v)] + [[2, 7]], z())
call("noll2degrees", lambda v: [np.array([1, 5, 30 + v])], lambda a: mod("zernike", "noll2degrees")(*a))
call("degrees2noll", lambda v: [np.array([2, 3 + (v == 1) * 2]), np.array([-2, 1])],
     lambda a: mod("zernike", "degrees2noll")(*a))
call("pcoefs", lambda v: [("tip", "defocus", "primary spherical")[v], 0.4 + v],
     lambda a: mod("otf", "named_aberration_to_pcoefs")(*a))

call("pcoefs zero", lambda v: [("tip", "defocus", "tilt")[v], (0, 0.0, -0.0)[v]],
     lambda a: mod("otf", "named_aberration_to_pcoefs")(*a))
call("pcoefs every", lambda v: [(0.3, 0, -1)[v]],
     lambda a: [mod("otf", "named_aberration_to_pcoefs")(n, a[0]) for n in refs.NAMES])


def arrays(m):
    return [np.array(getattr(m, a)) for a in objs.ARRAYS] + [m.wl, m.na, m.ni, m.res, m.size, m.zres, m.zsize,
                                                              m.vec_corr, m.condition, repr(m)]


def hkw(v):
    return dict(H, wl=(520, 560.0, 520)[v], size=(5, 5, 6)[v])


call("hanser", lambda v: [hkw(v)], lambda a: objs.cls("h")(**a[0]), arrays)
call("hanser planes", lambda v: [dict(hkw(v), vec_corr="total"), np.array([-100.0, 50.0 + v, 300.0])],
     lambda a: objs.cls("h")(zrange=a[1], **a[0]), arrays)
call("hanser list", lambda v: [dict(hkw(v), zrange=[-100.0, 50.0 + v])], lambda a: objs.cls("h")(**a[0]), arrays)


# parameters changed one at a time, all arrays of the same shape
for _o in (dict(na=0.9, ni=1.4, res=170), dict(zres=140, vec_corr="total", condition="herschel"),
           dict(vec_corr="x", condition="none", wl=519.5)):
    call("hanser " + "/".join(_o), lambda v, o=_o: [dict(H, **dict([list(o.items())[v]]))],
         lambda a: objs.cls("h")(**a[0]), arrays)


def set_planes(a):
    m = objs.cls("h")(**a[0])
    m.OTFi
    m.zrange = a[1]
    return m


call("zrange", lambda v: [hkw(v), np.array([0.0, 40.0 + v])], set_planes, arrays)


def supply(a):
    m = objs.cls("h")(**a[0])
    m.apply_pupil(a[1])
    return m


call("pupil", lambda v: [dict(hkw(v), condition="none"), objs.pupil(1 + (v == 1), hkw(v)["size"])], supply, arrays)
call("pupil plain", lambda v: [dict(hkw(v), condition="none", zsize=1), objs.pupil(1, hkw(v)["size"])], supply,
     arrays)
call("sheppard", lambda v: [dict(hkw(v), zsize=7, dual=v == 1, vec_corr=("none", "none", "total")[v])],
     lambda a: objs.cls("s")(**a[0]), arrays)


def base_model(v):
    m = objs.cls("h")(**hkw(v))
    m.OTFi
    return m


def ab(a):
    return mod("otf", "apply_aberration")(*a)


call("aberrate", lambda v: [base_model(v), np.array([0.0, 0.1, 0.2 + v]), np.array([0.3, -0.1, 0.5])], ab, arrays)
call("aberrate phase", lambda v: [base_model(v), None, np.array([0.3, -0.1, 0.5 + v])], ab, arrays)
call("aberrate mag", lambda v: [base_model(v), np.array([0.3, -0.1, 0.5 + v]), None], ab, arrays)
call("aberrate none", lambda v: [base_model(v), None, None], ab, arrays)
call("named", lambda v: [base_model(v), "vertical coma", 0.3 + v],
     lambda a: mod("otf", "apply_named_aberration")(*a), arrays)
call("nameds", lambda v: [base_model(v), {"tip": 0.4, "defocus": 0.1 + v}],
     lambda a: mod("otf", "apply_named_aberrations")(*a), arrays)

call("named zero", lambda v: [base_model(v), "vertical coma", (0, 0.0, 0)[v]],
     lambda a: mod("otf", "apply_named_aberration")(*a), arrays)
call("nameds zero", lambda v: [base_model(v), ({}, {"tip": 0}, {"tilt": 0.0, "defocus": 0})[v]],
     lambda a: mod("otf", "apply_named_aberrations")(*a), arrays)
call("aberrate zero", lambda v: [base_model(v), np.zeros(3 + v), np.zeros(3 + v)], ab, arrays)
call("aberrate empty", lambda v: [base_model(v), np.zeros(0), (np.zeros(0), None, np.zeros(0))[v]], ab, arrays)


def text(a):
    """What a model and its copies print as."""
    k, kw = a
    m = objs.cls(k)(**kw)
    out = [repr(m), str(m), repr(copy.copy(m)), repr(copy.deepcopy(m)), f"{m}"]
    m.PSFi
    out += [repr(m), repr(pickle.loads(pickle.dumps(m)))]
    m.wl = 700
    if k == "h":
        m.zrange = np.linspace(-1, 1, 1500)
    return out + [repr(m)]


call("text hanser", lambda v: ["h", hkw(v)], text)
call("text sheppard", lambda v: ["s", dict(hkw(v), zsize=7)], text)


def refusing(*fs):
    """Calls that are refused; what they raise."""
    def f(a):
        out = []
        for g in fs:
            try:
                g(a)
                out.append("accepted")
            except Exception as e:  # noqa
                out.append(type(e).__name__)
        return out
    return f


call("refused", lambda v: [arr(v, 3, 4), hkw(v), base_model(v), np.array([0.1, 0.2 + v])], refusing(
    lambda a: objs.cls("h")(**dict(a[1], vec_corr="no")), lambda a: objs.cls("h")(**dict(a[1], na=-1)),
    lambda a: objs.cls("h")(**dict(a[1], zres=0)), lambda a: objs.cls("s")(**dict(a[1], condition=3)),
    lambda a: setattr(a[2], "wl", "x"), lambda a: setattr(a[2], "vec_corr", "no"),
    lambda a: mod("otf", "named_aberration_to_pcoefs")("none such", 1),
    lambda a: mod("otf", "apply_named_aberrations")(a[2], {"tip": 1, "none such": 1}),
    lambda a: mod("otf", "apply_aberration")(a[2], a[0], a[0]),
    lambda a: a[2].apply_pupil(a[0]), lambda a: mod("utils", "bin_ndarray")(a[0], [2, 3]),
    lambda a: mod("utils", "slice_maker")([1j], [2]), lambda a: mod("utils", "slice_maker")([1], [-2]),
    lambda a: mod("zernike", "zernike")(a[0], a[0], 0), lambda a: mod("zernike", "zernike")(a[0], a[0], 1, 2),
    lambda a: mod("zernike", "noll2degrees")(-1), lambda a: mod("zernike", "degrees2noll")(2, 1),
    lambda a: mod("phaseretrieval", "retrieve_phase")(a[0], a[1]),
    lambda a: mod("microscope", "WidefieldMicroscope")(model="no", na=1, ni=1, wl=1, size=3, pixel_size=1)))


def rmk(kind, z="explicit", dt=None):
    def mk(v):
        case = dict(n=4 + (v == 2), nz=2, z=z, kind=kind, opt=5)
        p = c15.params(case)
        if "zrange" in p:
            p["zrange"] = np.array(p["zrange"])
        d = c15.make(case)
        if v == 1:
            d = d[:, ::-1].copy()
        return [d, p]
    return mk


def rcall(*extra):
    def f(a):
        r = mod("phaseretrieval", "retrieve_phase")(a[0], a[1], *extra)
        r.fit_to_zernikes(4)
        return r
    return f


def other(a, d):
    a[1].update(d)
    return a


def rread(r):
    zd = r.zd_result
    return [np.array(r.mag), np.array(r.phase), np.array(r.mse), np.array(r.mse_diff), np.array(r.pupil_diff),
            np.array(zd.mcoefs), np.array(zd.pcoefs), r.complex_pupil, r.generate_psf(), r.generate_psf(size=3),
            r.generate_psf(size=7, zsize=3), r.generate_zd_psf(), zd.phase(slice(1, 3)), zd.mag(slice(None)),
            zd.complex_pupil(), np.array(r.model.zrange), r.na, r.wl]


call("retrieve", rmk("ab"), rcall(2, 0, 0), rread)
call("retrieve optics", lambda v: other(rmk("ab")(0), (dict(na=0.8), dict(ni=1.3), dict(res=250))[v]), rcall(1, 0, 0),
     rread)
call("retrieve light", lambda v: other(rmk("ab", "uniform")(0), (dict(wl=560), dict(zres=250), dict(wl=520.5))[v]),
     rcall(1, 0, 0), rread)
call("retrieve int", rmk("int", "uniform"), rcall(1, 0, 0), rread)
call("retrieve phase only", rmk("neg"), rcall(2, 0, 0, True), rread)
# stopped by each of the tolerances, at once or later, and by the default limits
call("retrieve stopped", rmk("ab"), lambda a: [rread(rcall(*x)(a)) for x in (
    (9, 0, 1e9), (9, 1e9, 0), (9, 0, 0.9), (9, 0.5, 0), (1, 0, 0), (1, 1, 1), (200, 1e-3, 1e-3))])


def again(a):
    """Data the ideal pupil explains."""
    d = mod("otf", "HanserPSF")(size=a[0].shape[-1], zsize=2, vec_corr="none", condition="none",
                                **{k: v for k, v in a[1].items() if k in ("wl", "na", "ni", "res", "zres")}).PSFi
    return rread(rcall()([d, {k: v for k, v in a[1].items() if k != "zrange"}]))


call("retrieve ideal", rmk("ab", "uniform"), again)


def generate(a):
    r = rcall(2, 0, 0)(rmk("ab")(0))
    return r.generate_psf(**a[0]), r.generate_zd_psf(**a[0]), r.generate_psf(), r.generate_zd_psf()


call("generate", lambda v: [dict(zrange=np.array([-50.0, 100.0 + v]), size=(None, 3, 6)[v])], generate)
call("generate list", lambda v: [dict(zrange=[-50.0, 100.0 + v, 700.0])], generate)
call("labview", lambda v: [(arr(v if v < 2 else 0, 2, 4, 4, kind=int) % 31).tolist()],
     lambda a: mod("labview", "labview")(a[0], 520, 0.85, 1.0, 260, 300, 2, 0, 0))


def mic(kind, **more):
    def mk(v):
        d = dict(micro.OPT, model="hanser", size=3 + (v == 2), pixel_size=180, oversample_factor=(1, 3, 1)[v],
                 zsize=3, zres=130, **micro.own(kind), **more)
        if d.get("orientations"):
            d["orientations"] = (list(d["orientations"]), np.array(d["orientations"]), list(d["orientations"]))[v]
        if "zrange" in d:
            d["zrange"] = (list, np.array, list)[v](d["zrange"])
        return [d]
    return mk


def mread(m):
    out = [np.array(m.PSF), np.array(m.OTF), np.array(m.model.PSFi), np.array(m.model_psf)]
    return out + [float(o) for o in getattr(m, "orientations", ())]


def other2(a, d):
    a[0].update(d)
    return a


for _k in micro.TYPES:
    call(_k, mic(_k), lambda a, k=_k: mod("microscope", k)(**a[0]), mread)
MICS = (("WidefieldMicroscope", (dict(na=1.0), dict(ni=1.4), dict(pixel_size=170))),
        ("ConfocalMicroscope", (dict(wl_exc=450), dict(pinhole_size=0.6), dict(zres=120))),
        ("SIM3DMicroscope", (dict(wl_exc=450), dict(na_exc=0.9), dict(wiener=0.2))))
for _k, _o in MICS:
    call(_k + " other", lambda v, k=_k, o=_o: other2(mic(k)(0), o[v]), lambda a, k=_k: mod("microscope", k)(**a[0]), mread)
call("Widefield planes", mic("WidefieldMicroscope", zrange=(-50.0, 0.0, 200.0)),
     lambda a: mod("microscope", "WidefieldMicroscope")(**a[0]), mread)


def mtext(a):
    m = mod("microscope", a[0])(**a[1])
    out = [repr(m), str(m), repr(copy.deepcopy(m))]
    m.PSF
    return out + [repr(m), repr(pickle.loads(pickle.dumps(m)))]


for _k in micro.TYPES:
    call("text " + _k, lambda v, k=_k: [k] + mic(k)(v), mtext)


def plot(f):
    def g(a):
        from matplotlib import pyplot as plt

        try:
            fig, axs = f(a)
            return [np.array(im.get_array()) for ax in fig.axes for im in ax.get_images()]
        finally:
            plt.close("all")
    return g


call("psf_plot", lambda v: [arr(v, 3, 4, 4) + 1.0], plot(lambda a: mod("display", "psf_plot")(
    a[0], zres=2, res=1, mip=False)), slow=True)


def elsewhere(f):
    """A figure of one's own is passed while another one is current."""
    def g(a):
        from matplotlib import pyplot as plt

        try:
            fig, now = plt.figure(), plt.figure()
            r, _ = f(a, fig)
            require(r is fig and not now.axes and len(plt.get_fignums()) == 2, "plotted on another figure")
            require(plt.gcf() is now, "process-wide current figure changed")
            return [len(fig.axes)]
        finally:
            plt.close("all")
    return g


call("psf_plot elsewhere", lambda v: [arr(v, 3, 4, 4) + 1.0], elsewhere(lambda a, fig: mod("display", "psf_plot")(
    a[0], zres=2, res=1, fig=fig)), slow=True)
call("otf_plot elsewhere", lambda v: [sq(v, 3) + 1.0], elsewhere(lambda a, fig: mod("display", "otf_plot")(
    a[0], zres=2, res=1, na=1, ni=1.3, wl=4, fig=fig)), slow=True)
call("otf_plot", lambda v: [sq(v, 3) + 1.0], plot(lambda a: mod("display", "otf_plot")(
    a[0], zres=2, res=1, na=1, ni=1.3, wl=4)), slow=True)
call("result plot", rmk("ab"), plot(lambda a: rcall(2, 0, 0)(a).plot()), slow=True)
call("plot model", lambda v: [base_model(v)], plot(lambda a: a[0].plot_psf()), slow=True)
call("plot model otf", lambda v: [base_model(v)], plot(lambda a: a[0].plot_otf()), slow=True)


def drawn(f):
    """The series a figure shows."""
    def g(a):
        from matplotlib import pyplot as plt

        try:
            fig, _ = f(a)
            return [[np.array(x.get_xydata()) for x in ax.lines] + [float(x.get_height()) for x in ax.patches]
                    for ax in fig.axes]
        finally:
            plt.close("all")
    return g


call("plot convergence", rmk("ab"), drawn(lambda a: rcall(2, 0, 0)(a).plot_convergence()), slow=True)
call("plot coefs", rmk("ab"), drawn(lambda a: rcall(2, 0, 0)(a).fit_to_zernikes(6).plot_coefs()), slow=True)
call("plot named", rmk("ab"), drawn(lambda a: rcall(2, 0, 0)(a).fit_to_zernikes(6).plot_named_coefs()), slow=True)
call("plot decomposition", rmk("ab"), plot(lambda a: rcall(2, 0, 0)(a).fit_to_zernikes(4).plot()), slow=True)
call("plot microscope", mic("WidefieldMicroscope"), plot(lambda a: mod("microscope", "WidefieldMicroscope")(
    **a[0]).plot_psf()), slow=True)
call("plot microscope otf", mic("ConfocalMicroscope"), plot(lambda a: mod("microscope", "ConfocalMicroscope")(
    **a[0]).plot_otf()), slow=True)

# ---- running


def leaves(x, depth=0):
    """All arrays, lists and dicts in an argument or result."""
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, dict):
        for y in list(x.values()):
            yield from leaves(y)
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from leaves(y)
        if isinstance(x, list):
            yield x


def scribble(x):
    """Change everything mutable, in place."""
    for y in list(leaves(x)):
        if isinstance(y, np.ndarray):
            if y.flags.writeable:
                y[...] = np.array(3.25).astype(y.dtype)
        elif isinstance(y, dict):
            y.clear()
        else:
            del y[:]
    for y in x if isinstance(x, (list, tuple)) else [x]:
        if type(y).__name__ in ("HanserPSF", "SheppardPSF"):
            y.wl = 600
            if hasattr(y, "zrange"):
                y.zrange = [1.0, 2.0]
                y.apply_pupil(objs.pupil(2, y.size))


def frozen(x):
    """What an argument holds, to compare with later."""
    if type(x).__name__ in ("HanserPSF", "SheppardPSF"):
        c = copy.copy(x)
        return ["model", arrays(c)]
    if isinstance(x, (list, tuple)):
        return type(x)(frozen(y) for y in x)
    return copy.deepcopy(x)


def layout(x, how):
    """The same argument with another memory layout."""
    if isinstance(x, list):
        return [layout(y, how) for y in x]
    if isinstance(x, dict):
        return {k: layout(y, how) for k, y in x.items()}
    if isinstance(x, np.ndarray) and x.ndim:
        if how == "F":
            return np.asfortranarray(x)
        if how == "view":
            b = np.full(tuple(2 * n for n in x.shape), 99).astype(x.dtype)
            s = (slice(None, None, 2),) * x.ndim
            b[s] = x
            return b[s]
        if how == "reversed":
            s = (slice(None, None, -1),) * x.ndim
            return x[s].copy()[s]
        if how == "read-only":
            x = x.copy()
            x.setflags(write=False)
            return x
    return x


def flat(x):
    if isinstance(x, (list, tuple)):
        return [b for a in x for b in flat(a)]
    return [x]


def alone(name, v):
    """A call by itself."""
    mk, f, read, _ = CALLS[name]
    r = f(mk(v))
    return read(r) if read else list(r) if isinstance(r, tuple) else r


def agree(got, want, what):
    from mc.core import close

    g, w = flat(got), flat(want)
    require(len(g) == len(w), f"{what}: {len(g)} values, expected {len(w)}")
    for i, (a, b) in enumerate(zip(g, w)):
        if isinstance(b, (str, slice, bool, type(None))):
            require(a == b, f"{what} [{i}]: {a!r}, expected {b!r}")
        else:
            close(a, b, f"{what} [{i}]", 1e-10)
            require(getattr(a, "dtype", None) == getattr(b, "dtype", None), f"{what} [{i}]: type of values differs")


class Live:
    """A call whose result is still around."""

    def __init__(self, name, v, how, early):
        self.name, self.v = name, v
        mk, f, self.read, _ = CALLS[name]
        self.what = f"{name} (variant {v}, {how})"
        self.args = layout(mk(v), how)
        before = frozen(self.args)
        bases = [a.base for a in leaves(self.args) if isinstance(a, np.ndarray) and isinstance(a.base, np.ndarray)]
        bcopy = [b.copy() for b in bases]
        old = np.seterr(**ERRS[early])
        logging.getLogger("pyotf").setLevel((logging.DEBUG, logging.ERROR)[early])
        rnd, err, env = np.random.get_state(), np.geterr(), world()
        self.r = f(self.args)
        now = world()
        now["logs"] = {n: now["logs"].get(n) for n in env["logs"]}
        for k, w in env.items():
            require(now[k] == w, f"{self.what}: process-wide {k} changed")
        if early:
            self.check("at once")
        same(frozen(self.args), before, f"{self.what}: arguments after the call")
        for b, c in zip(bases, bcopy):
            same(b, c, f"{self.what}: the array its argument is a view of")
        require(np.geterr() == err, f"{self.what}: numpy's error settings became {np.geterr()}")
        np.seterr(**old)
        same(list(np.random.get_state()), list(rnd), f"{self.what}: numpy's random state")

    def check(self, when):
        got = self.read(self.r) if self.read else self.r
        agree(got, WANT[self.name, self.v], f"{self.what}, {when}")
        if self.read:
            scribble(got)

    def spoil(self):
        if self.read is None:
            scribble(self.r if isinstance(self.r, (list, dict, np.ndarray)) else list(self.r)
                     if isinstance(self.r, tuple) else [])


# error settings of numpy the calls are made under, so that any setting made by a call shows
ERRS = (dict(divide="warn", over="warn", under="ignore", invalid="warn"),
        dict(divide="ignore", over="ignore", under="warn", invalid="ignore"))


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def world():
    """Process-wide settings other code depends on."""
    rc = {}
    if "matplotlib" in sys.modules:
        rc = dict(sys.modules["matplotlib"].rcParams)
    for n in "phaseretrieval", "display", "microscope", "labview":
        importlib.import_module("pyotf." + n)
    logs = {n: (x.level, x.disabled, x.propagate, list(x.handlers), list(x.filters))
            for n, x in list(logging.root.manager.loggerDict.items()) if isinstance(x, logging.Logger)}
    logs = {"pyotf": (0, False, True, [], []), **{n: x for n, x in logs.items() if n.split(".")[0] == "pyotf"}}
    return dict(env=dict(os.environ), logs=logs, cwd=os.getcwd(), rng=random.getstate(), filters=list(warnings.filters),
                printing=np.get_printoptions(), errcall=np.geterrcall(), path=list(sys.path), rc=rc,
                recursion=sys.getrecursionlimit(), buffer=np.getbufsize(), root=logging.getLogger().level,
                gc=(gc.isenabled(), gc.get_threshold(), gc.get_debug()), switch=sys.getswitchinterval(),
                signals=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)],
                number=str(decimal.getcontext()), locale=locale.setlocale(locale.LC_ALL), stdout=(sys.stdout, sys.stderr),
                workers=scipy.fft.get_workers(), bytecode=sys.dont_write_bytecode, umask=umask(),
                handlers=list(logging.getLogger().handlers), disabled=logging.root.manager.disable,
                hooks=(sys.excepthook, sys.displayhook, warnings.showwarning))


WANT = {}


def play(seq, how, early):
    """Make the calls in turn; every result must survive everything done later."""
    live = []
    for name, v in seq:
        for x in live:
            x.spoiled or x.spoil_args()
        x = Live(name, v, how, early)
        x.spoiled = False
        x.spoil_args = lambda x=x: (scribble(x.args), setattr(x, "spoiled", True))
        live.append(x)
        if early and len(live) > 1:
            live[-2].check("after the next call")
            live[-2].spoil()
            live[-1].check("after results of the earlier call were written to")
    for x in live:
        scribble(x.args)
    if early:
        live[-1].check("after its arguments were written to")
    else:
        for x in live:
            x.check("after all calls")


def plays(jobs):
    try:
        before = sched.fingerprint()
        for seq, how, early in jobs:
            try:
                play(seq, how, early)
            except Violation as e:
                raise Violation(f"calls {seq}: {e}")
            except Exception as e:  # noqa
                import traceback

                raise Violation(f"calls {seq} ({how}): {type(e).__name__}: {e} {traceback.format_exc()[-300:]}")
        return True, sched.fingerprint() != before
    except Violation as e:
        return False, str(e)


HOWS = ("C", "F", "view", "reversed", "read-only")


class C(Check):
    id = "C26"
    level = "model_checking"
    chunk = 1
    rule = ("Sequences f, g, f of public calls for all ordered pairs (f, g) and all their argument variants (two "
            "values of one shape, another shape); between the calls everything passed in and returned before is "
            "overwritten in place. All memory layouts for every single call. Thorough: all pairs in every layout, and "
            "sequences f, g, h, f of all triples. States are sequences, transitions calls.")
    assumptions = ["writing to the arrays of a model object itself is not claimed"]

    def cases(self, tier):
        th = tier == "thorough"
        for f in CALLS:
            for v in V:
                yield dict(f=f, v=v, kind="alone")
        for f in CALLS:
            for v in V:
                yield dict(f=f, v=v, kind="pairs", hows=HOWS if th else HOWS[:1])
        if th:
            for f in CALLS:
                if not CALLS[f][3]:
                    for g in CALLS:
                        if not CALLS[g][3]:
                            yield dict(f=f, v=0, g=g, kind="triples")

    def jobs(self, case):
        f, v = case["f"], case["v"]
        if case["kind"] == "alone":
            return [(((f, v),) * n, how, e) for how in HOWS for e in (True, False) for n in (1, 2)]
        if case["kind"] == "triples":
            return [(((f, v), (case["g"], 1), (h, w), (f, v)), "C", True)
                    for h in CALLS if not CALLS[h][3] for w in (1, 2)]
        slow = CALLS[f][3]
        few = ("psf_plot", "otf_plot", "hanser", "easy_fft", "retrieve")
        return [(((f, v), (g, w), (f, v)), how, e) for g in CALLS for w in V for how in case["hows"]
                for e in ((True,) if slow or CALLS[g][3] else (True, False))
                if not slow and not CALLS[g][3] or (f in few and g in few) or f == g]

    def run(self, case):
        jobs = self.jobs(case)
        for seq, _, _ in jobs:
            for k in seq:
                if k not in WANT:
                    WANT[k] = ORACLE(alone, *k)
        tag, r = sched.in_child(plays, jobs)
        require(tag == "ok", f"{case}: {r}")
        require(r[0], r[1])
        if r[1]:
            for j in jobs:
                tag, q = sched.in_child(plays, [j])
                require(tag == "ok", f"{case}: {q}")
                require(q[0], q[1])
        states = {(how, e) + tuple(seq) for seq, how, e in jobs}
        n = sum(len(s) for s, _, _ in jobs)
        return dict(evals=len(jobs), states=states, sigs=states, transitions=n, traces=len(jobs),
                    stats=dict(cold=len(jobs) if r[1] else 0))


CHECK = C()
