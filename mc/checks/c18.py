"""C18: labview() against prepare-then-retrieve for every combination of its settings."""
import itertools

import numpy as np

from mc import refs
from mc.checks.c15 import hash_noise
from mc.core import Check, close, digest, require

OPTICS = (dict(wl=520, na=0.85, ni=1.0, res=130, zres=300), dict(wl=610.0, na=1.2, ni=1.33, res=110.0, zres=250))
NAMES = ("wl", "na", "ni", "res", "zres", "max_iters", "pupil_tol", "mse_tol", "phase_only")
STACKS = (((3, 7, 7), "int64"), ((2, 6, 6), "uint16"), ((4, 8, 8), "int32"), ((3, 5, 8), "int64"),
          ((1, 6, 6), "uint8"), ((3, 9, 6), "int16"),
          ((2, 6, 6), "int64"), ((2, 6, 6), "int64"), ((2, 6, 7), "uint32"), ((2, 6, 6), "int32"),
          ((3, 7, 7), "int64"), ((4, 6, 6), "int64"), ((3, 8, 8), "int32"))
# counts beyond the range of the next smaller types
SCALE = (1, 1, 1, 1, 1, 1, 30011, 700, 400, 2, 1, 1, 1)


def stack(i, oi):
    (nz, ny, nx), dt = STACKS[i]
    o = OPTICS[oi]
    n = max(ny, nx)
    p = refs.aberrated_pupil(o["wl"], o["na"], o["ni"], o["res"], n, [0] * 6, [0, .3, -.2, .4, .5, -.3])
    a = refs.hanser(o["wl"], o["na"], o["ni"], o["res"], n, refs.uniform_planes(nz, o["zres"]), cond="none", pupil=p)
    d = abs(a[0]) ** 2
    d = (np.rint(d / d.max() * 90 + 12 * hash_noise(d.shape)).astype(dt) + np.array(5, dtype=dt)) * \
        np.array(SCALE[i], dtype=dt)
    # planes and edges without signal, planes that are the same
    if i == 10:
        d[0] = 5
    elif i == 11:
        d[2:] = d[1]
    elif i == 12:
        d[:, :1] = d[:, -2:] = d[:, :, :2] = d[-1] = 5
    return np.ascontiguousarray(d[:, :ny, :nx])


def forms(d):
    return (("list", d.tolist()), ("array", d), ("tuple", tuple(tuple(map(tuple, p)) for p in d.tolist())),
            ("list of arrays", list(d)))


class C(Check):
    id = "C18"
    chunk = 1
    rule = ("Every stack x optics x way of passing the stack x setting of each of the four algorithm arguments "
            "(default, and values that make each limit the acting one) x number of positional arguments; structureless "
            "stacks on which the defaults act. "
            "Outcome signature: returned phase.")
    assumptions = ["the two documented steps are judged by C14 and C15"]

    def cases(self, tier):
        for s in range(len(STACKS)):
            for o in range(len(OPTICS)):
                for f in range(4):
                    yield dict(s=s, o=o, f=f, deep=tier == "thorough")
        for res in (130, 200, 280):
            for zres in (300, 1000) + ((3000,) if tier == "thorough" else ()):
                for sh in ((3, 7, 7), (2, 9, 9), (4, 8, 8)):
                    yield dict(t="slow", res=res, zres=zres, sh=sh)

    def run_slow(self, case):
        """Structureless stacks, on which every omitted setting is the one that acts."""
        from pyotf.labview import labview
        from pyotf.phaseretrieval import retrieve_phase
        from pyotf.utils import prep_data_for_PR

        d = np.rint(90 * hash_noise(tuple(case["sh"]))).astype("int64")
        d -= d.min()
        o = dict(wl=520, na=0.85, ni=1.0, res=case["res"], zres=case["zres"])
        prepped, sigs, runs = np.array(prep_data_for_PR(d.copy())), set(), 0
        full = dict(max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, phase_only=False)
        for kw in ({}, dict(pupil_tol=0), dict(mse_tol=0), dict(pupil_tol=0, mse_tol=0), dict(max_iters=260),
                   dict(max_iters=260, pupil_tol=0), dict(phase_only=True)):
            r = retrieve_phase(prepped.copy(), dict(o), **dict(full, **kw))
            close(np.array(labview(d.tolist(), *o.values(), **kw)), r.phase, f"{kw}: phase", 1e-9)
            sigs.add(digest(np.asarray(r.phase)))
            runs += 1
        return dict(evals=runs, sigs=sigs)

    def run(self, case):
        if case.get("t"):
            return self.run_slow(case)
        from pyotf.labview import labview
        from pyotf.phaseretrieval import retrieve_phase
        from pyotf.utils import prep_data_for_PR

        d = stack(case["s"], case["o"])
        o = OPTICS[case["o"]]
        form, arg = forms(d)[case["f"]]
        prepped = np.array(prep_data_for_PR(d.copy()))
        base = retrieve_phase(prepped.copy(), dict(o), 6, 0, 0)

        def mid(v):
            v = sorted(x for x in v if np.isfinite(x))
            return [] if len(v) < 2 else [(v[len(v) // 2 - 1] * v[len(v) // 2]) ** .5]

        none = object()
        iters = (none, 1, 2, 5) + ((3, 4, 9) if case["deep"] else ())
        ptol = [none, 0.0, 1.0] + mid(base.pupil_diff)
        mtol = [none, 0.0] + mid(base.mse_diff) + mid(base.mse)
        po = (none, False, True)
        sigs, runs = set(), 0
        memo = {}
        for combo in itertools.product(iters, ptol, mtol, po):
            if combo[0] is none and (combo[1] not in (none, 0.0, 1.0) or combo[2] not in (none, 0.0)):
                continue  # 200 iterations add nothing but time here
            vals = list(o.values()) + list(combo)
            # how many leading arguments go positionally: all forms that the given settings allow
            stop = next((i for i, v in enumerate(vals) if v is none), len(vals))
            pk = combo
            for npos in sorted({0, 5, stop}) if not case["deep"] else range(stop + 1):
                args = vals[:npos]
                kw = {k: v for k, v in list(zip(NAMES, vals))[npos:] if v is not none}
                got = labview(arg, *args, **kw)
                if pk not in memo:
                    k = {n: v for n, v in zip(NAMES[5:], combo) if v is not none}
                    memo[pk] = np.array(retrieve_phase(prepped.copy(), dict(o), **k).phase)
                what = f"{form}, {npos} positional, {kw}: "
                require(isinstance(got, list) and all(isinstance(r, list) for r in got)
                        and all(type(v) is float for r in got for v in r), what + "not nested lists of floats")
                close(np.array(got), memo[pk], what + "phase", 1e-9)
                runs += 1
            sigs.add(digest(memo[pk]))
        return dict(evals=runs, sigs=sigs)


CHECK = C()
