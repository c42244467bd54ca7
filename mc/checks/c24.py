"""C24: all line-level schedules of two real threads to a preemption bound."""
import copy

import numpy as np

from mc import micro, objs, refs, sched
from mc.checks import c15
from mc.core import ORACLE, Check, Violation, close, require

H = dict(wl=520, na=1.2, ni=1.33, res=180, size=5, zsize=3, zres=150)
COEF = ((0.0, 0.1, -0.2, 0.3, 0.4), (0.1, 0.0, 0.5, -0.3, 0.2, 0.1, 0.7))

# ---- contexts: a shared object and operations on it


def setup(ctx):
    if ctx == "own":
        return None
    if ctx == "h":
        return objs.build("h", dict(H, vec_corr="total"))
    if ctx == "hp":
        return objs.build("h", dict(H, condition="herschel"), pup=1)
    if ctx == "hz":
        return objs.build("h", H, zrange=(-100.0, 30.0, 250.0, 500.0))
    if ctx == "s":
        return objs.build("s", dict(H, zsize=7, dual=True, vec_corr="x"))
    if ctx == "r":
        from pyotf.phaseretrieval import retrieve_phase

        case = dict(n=5, nz=2, z="uniform", kind="ab", opt=5)
        r = retrieve_phase(c15.make(case), c15.params(case), 2, 0, 0)
        r.fit_to_zernikes(6)
        return r
    # nothing at its default, so that a setting that is changed for a while shows
    base = dict(micro.OPT, model="hanser", size=4, pixel_size=180, oversample_factor=3, zrange=(-130.0, 20.0, 170.0),
                vec_corr="x", condition="herschel")
    return micro.make(ctx, base, micro.own(ctx))


def aberrate(o, i):
    from pyotf.otf import apply_aberration, apply_named_aberration, apply_named_aberrations

    if i == 0:
        m = apply_aberration(o, None, np.array(COEF[0]))
    elif i == 1:
        m = apply_aberration(o, np.array(COEF[1]) / 5, np.array(COEF[1]))
    elif i == 2:
        m = apply_named_aberration(o, "vertical coma", 0.6)
    else:
        m = apply_named_aberrations(o, {"tip": 0.4, "primary spherical": -0.5})
    return np.array(m.PSFi), np.array(m.zrange)


def reader(*names):
    return lambda o: [np.array(getattr(o, n)) for n in names]


HOPS = {
    "PSFa": reader("PSFa"), "PSFi": reader("PSFi"), "OTFa": reader("OTFa"), "OTFi": reader("OTFi"),
    "OTFi,PSFa": reader("OTFi", "PSFa"), "ab0": lambda o: aberrate(o, 0), "ab1": lambda o: aberrate(o, 1),
    "named": lambda o: aberrate(o, 2), "nameds": lambda o: aberrate(o, 3),
    "copy": lambda o: np.array(copy.copy(o).OTFi),
}
ROPS = {
    "gen": lambda r: r.generate_psf(), "gen6": lambda r: r.generate_psf(size=8, zsize=3),
    "genz": lambda r: r.generate_psf(size=3, zrange=[-100.0, 250.0, 300.0]),
    "zd": lambda r: r.generate_zd_psf(), "zds": lambda r: r.generate_zd_psf(sphase=slice(1, 4), zsize=2),
    "pupil": lambda r: r.complex_pupil, "recon": lambda r: (r.zd_result.mag(slice(2)), r.zd_result.phase(slice(1, 5))),
    "model": lambda r: np.array(r.model.zrange),
}
MOPS = {"PSF": reader("PSF"), "OTF": reader("OTF"), "fine": reader("model_psf")}

# ---- operations on objects of the thread's own; two variants so that threads can differ


def own_hanser(v):
    m = objs.build("h", dict(H, size=(5, 6)[v], vec_corr=("total", "y")[v], condition=("herschel", "none")[v]))
    return np.array(m.PSFi)


def own_history(v):
    m = objs.build("h", H)
    a = np.array(m.PSFi)
    m.zsize = (2, 5)[v]
    b = np.array(m.OTFi)
    m.wl = (500.0, 560)[v]
    m.apply_pupil(objs.pupil(v + 1, 5))
    return a, b, np.array(m.PSFa), np.array(m.zrange)


def own_sheppard(v):
    m = objs.build("s", dict(H, zsize=(7, 8)[v], dual=bool(v), vec_corr=("none", "total")[v]))
    return np.array(m.OTFa), np.array(m.PSFi)


def own_aberrate(v):
    return aberrate(objs.build("h", dict(H, size=(5, 6)[v])), v)


def own_zernike(v):
    from pyotf.zernike import degrees2noll, noll2degrees, zernike

    r, t = np.meshgrid(np.linspace(0, 1.2, 5 + v), np.linspace(-3, 3, 4))
    js = np.array([[1, 4, 11], [7, 2, 30, 5]][v])
    n, m = noll2degrees(js)
    return zernike(r, t, js), zernike(r, t, n, m, norm=False), n, m, degrees2noll(n, m)


def own_prep(v):
    from pyotf.utils import prep_data_for_PR

    d = (np.arange(3 * 5 * (5 + v)).reshape(3, 5, 5 + v) * 7919 % 101).astype("u2")
    return prep_data_for_PR(d, (4, 8)[v], (1.1, 2)[v])


def own_retrieve(v):
    from pyotf.phaseretrieval import retrieve_phase

    case = dict(n=4 + v, nz=2, z=("uniform", "explicit")[v], kind=("ab", "int")[v], opt=5)
    r = retrieve_phase(c15.make(case), c15.params(case), 2, 0, 0, bool(v))
    zd = r.fit_to_zernikes(4 + v)
    return r.complex_pupil, r.mse, zd.mcoefs, zd.pcoefs, r.generate_psf(size=3 + v)


def own_labview(v):
    from pyotf.labview import labview

    d = (np.arange(2 * 16).reshape(2, 4, 4) * 7919 % (31, 57)[v]).tolist()
    return np.array(labview(d, 520, 0.85, 1.0, 260, (300, 250)[v], 2, 0, 0))


def own_mic(kind):
    def f(v):
        base = dict(micro.OPT, model="hanser", size=(3, 4)[v], pixel_size=180, oversample_factor=(1, 3)[v], zsize=3,
                    zres=130)
        s = micro.own(kind)
        if v and "wl_exc" in s:
            s["wl_exc"] = 505.5
        m = micro.make(kind, base, s)
        return np.array(m.PSF), np.array(m.OTF)
    return f


def own_utils(v):
    from pyotf import utils

    a = (np.arange(20 + 8 * v).reshape(4, -1) * 7919 % 101) / 7.0
    return (utils.easy_fft(a), utils.easy_ifft(a, axes=(v,)), utils.radial_profile(a)[0],
            utils.bin_ndarray(a, bin_size=(2, 1 + v)), utils.fft_pad(a, (5 + v, 9)), utils.center_data(a),
            utils.remove_bg(a.astype(int), 1.5), utils.psqrt(a - 5), np.array(utils.cart2pol(a, a[::-1])))


OWN = {"hanser": own_hanser, "history": own_history, "sheppard": own_sheppard, "aberrate": own_aberrate,
       "zernike": own_zernike, "prep": own_prep, "retrieve": own_retrieve, "labview": own_labview,
       "utils": own_utils}
OWN.update({k: own_mic(k) for k in micro.TYPES[1:]})

CTX = {"h": HOPS, "hp": {k: HOPS[k] for k in ("PSFi", "OTFa", "ab0", "copy")},
       "hz": {k: HOPS[k] for k in ("PSFi", "ab1", "named")},
       "s": {k: HOPS[k] for k in ("PSFa", "PSFi", "OTFa", "OTFi", "copy")}, "r": ROPS}
CTX.update({k: MOPS for k in micro.TYPES})


def op(ctx, name, v):
    if ctx == "own":
        return lambda o: OWN[name](v)
    return CTX[ctx][name]


def final(ctx, o):
    if ctx == "own":
        return []
    if ctx == "r":
        return [np.array(o.mag), np.array(o.phase), o.generate_psf(), o.generate_zd_psf(), np.array(o.model.zrange)]
    if ctx in micro.TYPES:
        return [np.array(o.PSF), np.array(o.OTF), np.array(o.model.PSFi)]
    return [np.array(getattr(o, a)) for a in objs.ARRAYS] + [getattr(o, p) for p in objs.PARAMS]


def alone(ctx, name, v):
    """What the operation returns when nothing else happens."""
    return op(ctx, name, v)(setup(ctx))


def alone_final(ctx):
    return final(ctx, setup(ctx))


def flat(x):
    if isinstance(x, (list, tuple)):
        return [b for a in x for b in flat(a)]
    return [x]


def agree(got, want, what):
    g, w = flat(got), flat(want)
    require(len(g) == len(w), what + f": {len(g)} values, expected {len(w)}")
    for i, (a, b) in enumerate(zip(g, w)):
        if isinstance(b, str):
            require(a == b, f"{what} [{i}]: {a!r}, expected {b!r}")
        else:
            close(a, b, f"{what} [{i}]", 1e-9)


def count(ctx, names, v, opcodes):
    """Lines each operation executes when run alone on a new object in a new process."""
    out = []
    for t in (0, 1):
        s = sched.Scheduler([(0, None)], opcodes)
        o = setup(ctx)
        s.run([lambda: op(ctx, names[t], v[t])(o)])
        out.append(s.steps.get(0, 0))
    return out


def execute(ctx, names, v, plan, opcodes, want, want_final):
    """One schedule; returns None or what went wrong, and the lines executed."""
    o = setup(ctx)
    s = sched.Scheduler(plan, opcodes)
    out = s.run([lambda t=t: op(ctx, names[t], v[t])(o) for t in range(len(names))])
    try:
        for t in range(len(names)):
            require(out[t][0] == "ok", f"thread {t} ({names[t]}): {out[t][1]}")
            agree(out[t][1], want[t], f"thread {t} ({names[t]})")
        agree(final(ctx, o), want_final, "shared object afterwards")
    except Violation as e:
        return str(e), s.total, s.free
    return None, s.total, s.free


def at_writes(ctx, names, v, f):
    """Schedules with two preemptions, each just before or after a line that changes the shared object.

    The lines of the second thread are those that change it when the first stands where it was preempted.
    """
    funcs = lambda o: [lambda t=t: op(ctx, names[t], v[t])(o) for t in range(len(names))]  # noqa
    g, plans = 1 - f, []
    o = setup(ctx)
    s = sched.Scheduler([(f, None), (g, None)], record=f, sig=lambda: sched.contents(o))
    s.run(funcs(o)[:2])
    for k in s.writes():
        o = setup(ctx)
        q = sched.Scheduler([(f, k), (g, None), (f, None)], record=g, sig=lambda: sched.contents(o))
        q.run(funcs(o)[:2])
        for j in q.writes():
            if j == 0:
                continue
            if len(names) == 2:
                plans.append([(f, k), (g, j), (f, None), (g, None)])
            else:
                plans += [[(f, k), (g, j), (2, None), (f, None), (g, None)], [(f, k), (g, j), (2, None), (g, None), (f, None)]]
    return plans


def batch(ctx, names, v, plans, opcodes, want, want_final):
    """All schedules one after the other; reports whether the code's modules came to hold anything new."""
    before = sched.fingerprint()
    total = free = 0
    for p in plans:
        bad, t, f = execute(ctx, names, v, p, opcodes, want, want_final)
        if bad is not None:
            return (p, bad), 0, 0, False
        total, free = total + t, free + f
    return None, total, free, sched.fingerprint() != before


# schedules with two preemptions are explored for pairs of operations with at most this many
BOUND2 = 70000
PARTS = 16


class C(Check):
    id = "C24"
    level = "model_checking"
    chunk = 1
    rule = ("Two threads, every pair of operations of each context (shared object or own objects), a switch point "
            "before every executed line of pyotf; every schedule with up to the bound of preemptions (1, thorough "
            "also 2 for pairs with at most 70000 such schedules, and 1 before every bytecode). Schedules of a "
            "pair share a process "
            "as long as the code's modules keep no state, and otherwise run in processes of their own. "
            "States are schedules, transitions executed lines.")
    assumptions = ["no preemption inside a line (thorough: inside a bytecode) or inside numpy",
                   "sharing means reading, deriving and generating; assignments and fits on shared objects are not "
                   "claimed"]

    def cases(self, tier):
        th = tier == "thorough"
        for ctx in list(CTX) + ["own"]:
            names = list(OWN if ctx == "own" else CTX[ctx])
            for i, a in enumerate(names):
                for b in names[i:]:
                    if ctx == "own" and a != b and not th:
                        # any two different ones share only module state; quick takes neighbours
                        if names.index(b) - i != 1:
                            continue
                    for v in ((0, 1), (1, 0)) if ctx == "own" and a != b and th else ((0, 1),):
                        for first in (0, 1):
                            yield dict(ctx=ctx, a=a, b=b, v=v, first=first, bound=1, opcodes=False)
        # two preemptions at the lines that change the shared object
        for ctx in CTX:
            names = list(CTX[ctx])
            for i, a in enumerate(names):
                for b in names[i:]:
                    for first in (0, 1) if a != b else (0,):
                        yield dict(ctx=ctx, a=a, b=b, v=(0, 1), first=first, bound="writes", opcodes=False)
                        if th:
                            for c in names:
                                yield dict(ctx=ctx, a=a, b=b, c=c, v=(0, 1), first=first, bound="writes", opcodes=False)
        if th:
            for ctx in list(CTX) + ["own"]:
                names = list(OWN if ctx == "own" else CTX[ctx])
                for i, a in enumerate(names):
                    for b in names[i:]:
                        if ctx == "own" and a != b:
                            continue
                        for first in (0, 1):
                            yield dict(ctx=ctx, a=a, b=b, v=(0, 1), first=first, bound=1, opcodes=True)
                            for part in range(PARTS):
                                yield dict(ctx=ctx, a=a, b=b, v=(0, 1), first=first, bound=2, opcodes=False,
                                           part=part)

    def run(self, case):
        ctx, names, v, f = case["ctx"], (case["a"], case["b"]), tuple(case["v"]), case["first"]
        oc = case["opcodes"]
        if "c" in case:
            names, v = names + (case["c"],), v + (0,)
        want = [ORACLE(alone, ctx, n, v[t]) for t, n in enumerate(names)]
        want_final = ORACLE(alone_final, ctx)
        tag, n = sched.in_child(count, ctx, names, v, oc)
        require(tag == "ok", f"run one after the other: {n}")
        g = 1 - f
        if case["bound"] == "writes":
            tag, plans = sched.in_child(at_writes, ctx, names, v, f)
            require(tag == "ok", f"run with one preemption: {plans}")
            if not plans:
                return dict(evals=0)
        else:
            plans = [[(f, k), (g, None), (f, None)] for k in range(n[f] + 1)]
        if case["bound"] == 2:
            if n[0] * n[1] > BOUND2:
                return dict(evals=0, stats=dict(pairs_too_long_for_bound_2=int(case["part"] == 0)))
            # both are counted from a cold start, the longest they can be
            plans = [[(f, k), (g, j), (f, None), (g, None)] for i, (k, j) in
                     enumerate((k, j) for k in range(n[f]) for j in range(1, n[g] + 1)) if i % PARTS == case["part"]]
            if not plans:
                return dict(evals=0)
        # Schedules share one process as long as the code's modules keep no state; otherwise each is repeated in
        # a process of its own, which starts cold.
        tag, r = sched.in_child(batch, ctx, names, v, plans, oc, want, want_final)
        require(tag == "ok", f"schedules: {r}")
        bad, tr, free, changed = r
        require(bad is None, bad and f"{ctx}: {" || ".join(names)}, schedule {bad[0]}: {bad[1]}")
        if changed:
            for p in plans:
                tag, r = sched.in_child(execute, ctx, names, v, p, oc, want, want_final)
                require(tag == "ok", f"schedule {p}: {r}")
                require(r[0] is None, f"{ctx}: {" || ".join(names)}, schedule {p}: {r[0]}")
                tr += r[1]
                free += r[2]
        states = {(ctx, names, v, oc, tuple(map(tuple, p))) for p in plans}
        return dict(evals=len(plans), states=states, transitions=tr, traces=len(plans), sigs=states,
                    stats=dict(blocked=free, cold=len(plans) if changed else 0))


CHECK = C()
