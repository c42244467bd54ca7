"""C07: aberrated models against the stated pupil formula."""
import itertools

import numpy as np

from mc import objs, refs
from mc.core import Check, Violation, close, digest, raises, require

VECS = ("none", "x", "y", "z", "total")
CONDS = ("none", "sine", "herschel")
OPTICS = [(520, 1.2, 1.33), (0.6, 1.49, 1.515), (500.5, 0.85, 1.0)]
# frequencies lie exactly on the NA circle (at j/8 and 3-4-5), all numbers being exact
EDGES = [(512, 0.5, 1), (512, 0.625, 1)]
NAMES = list(refs.NAMES)


class C(Check):
    id = "C07"
    level = "exploration"
    chunk = 2
    rule = ("Every Noll mode 1..120 alone in phase and in magnitude with both signs, every pair of the first 15, every "
            "coefficient count, every pair of nonzero ranges, either list omitted, every name and every pair of names, over optics, size parities, "
            "vectorial corrections and conditions; non-trivial: distinct aberrated amplitude PSFs.")
    assumptions = ["values compared to 1e-9 of the largest modulus (1e-8 for modes above 60)",
                   "grids where a frequency is within 1e-9 of the NA edge are skipped"]

    def cases(self, tier):
        th = tier == "thorough"
        for o in OPTICS:
            for size in (4, 5, 8, 9) + ((13, 16) if th else ()):
                for f in (0.36, 0.83) + ((0.23, 0.52) if th else ()):
                    yield dict(t="single", o=o, f=f, size=size, jmax=120 if size > 6 else 36)
        for size in (1, 2, 3, 6, 7) + ((12,) if th else ()):
            for o in OPTICS:
                yield dict(t="pairs", o=o, f=0.41, size=size)
                yield dict(t="counts", o=o, f=0.41, size=size)
                yield dict(t="support", o=o, f=0.41, size=size)
                yield dict(t="scales", o=o, f=0.41, size=size)
        for i, size in enumerate((32, 33, 64, 65, 127, 128, 129, 200, 256)):
            yield dict(t="single", o=OPTICS[i % 3], f=(0.36, 0.83)[i % 2], size=size, jmax=120,
                       js=(1 + i, 4, 7 + i, 11, 16 + 3 * i, 37 + i, 62, 79 + 4 * i, 120) if size < 100 else (8 + i, 66 + i))
        for o, f, size in ((EDGES[0], 0.25, 8), (EDGES[0], 0.25, 16), (EDGES[1], 0.3125, 32), (EDGES[0], 0.25, 24)):
            yield dict(t="single", o=o, f=f, size=size, jmax=36, edge=True)
        for o in OPTICS:
            for size in (5, 6, 9):
                yield dict(t="names", o=o, f=0.41, size=size)
                for vec in VECS:
                    yield dict(t="ident", o=o, f=0.41, size=size, vec=vec)

    def run(self, case):
        wl, na, ni = case["o"]
        self.args = (wl, na, ni, case["f"] * wl / (2 * na), case["size"])
        if not case.get("edge") and refs.hanser_margin(*self.args) < 1e-9:
            return dict(evals=0, skipped=1)
        self.built = 0
        self.zs = [-0.8 * wl, 0.0, 0.33 * wl]
        return getattr(self, "run_" + case["t"])(case)

    def base(self, vec="none", cond="sine", zs=None, own=True):
        from pyotf.otf import HanserPSF

        m = HanserPSF(*self.args, zrange=zs or self.zs, vec_corr=vec, condition=cond)
        self.built += 1
        if own and self.built % 3:  # the pupil the model has does not matter
            m.apply_pupil(objs.pupil(self.built % 3, self.args[-1]))
        return m

    def expect(self, m, mc, pc, what, vec="none", cond="sine", tol=1e-9):
        p = refs.aberrated_pupil(*self.args, mc, pc)
        ref = refs.hanser(*self.args, self.zs, vec, cond, p)
        close(m.PSFa, ref, what + ": PSFa", tol, scale=np.abs(ref).max() or 1)
        close(m.PSFi, (np.abs(ref) ** 2).sum(0), what + ": PSFi", tol, scale=(np.abs(ref) ** 2).sum(0).max() or 1)
        return digest(m.PSFa)

    def run_single(self, case):
        from pyotf.otf import apply_aberration

        n, sigs = 0, set()
        for j in case.get("js") or range(1, case["jmax"] + 1):
            c = np.zeros(min(120, j + j % 3))
            c[j - 1] = 1
            z = np.zeros_like(c)
            vec, cond = VECS[j % 5], CONDS[(j // 5) % 3]
            tol = 1e-9 if j <= 60 else 1e-8
            for a, b in ((None, 0.9), (None, -1.7), (0.6, None), (-0.8, None), (0.5, 0.8), (0.3, 0.0)):
                mc = None if a is None else a * c
                pc = None if b is None else b * c
                m = apply_aberration(self.base(vec, cond), mc, pc)
                sigs.add(self.expect(m, z if mc is None else mc, z if pc is None else pc,
                                     f"mode {j} mag {a} phase {b} {vec} {cond}", vec, cond, tol))
                n += 1
        return dict(evals=n, sigs=sigs)

    def run_pairs(self, case):
        from pyotf.otf import apply_aberration

        n, sigs = 0, set()
        base = self.base()
        for i, j in itertools.product(range(15), repeat=2):
            mc, pc = np.zeros(15), np.zeros(15)
            mc[i], pc[j] = 0.5, -0.7
            pc[i] += 0.2
            m = apply_aberration(base, mc, pc)
            sigs.add(self.expect(m, mc, pc, f"mag mode {i + 1} phase mode {j + 1}"))
            n += 1
        for vec, cond in itertools.product(VECS, CONDS):
            mc = 0.1 * np.sin(np.arange(22))
            pc = 0.4 * np.cos(1.7 * np.arange(22))
            m = apply_aberration(self.base(vec, cond), mc, pc)
            sigs.add(self.expect(m, mc, pc, f"22 modes {vec} {cond}", vec, cond))
            n += 1
        return dict(evals=n, sigs=sigs)

    def run_support(self, case):
        """Lists of equal length whose nonzero ranges start and end anywhere."""
        from pyotf.otf import apply_aberration

        n, sigs = 0, set()
        base = self.base()
        spans = [(a, b) for a in (0, 1, 3, 6) for b in (0, 1, 2, 4, 5, 6, 7, 10) if a < b or (a, b) == (0, 0)]
        for (a, b), (c, d) in itertools.product(spans, repeat=2):
            k = max(b, d, 1) + (n % 2)
            mc, pc = np.zeros(k), np.zeros(k)
            mc[a:b] = 0.2 + 0.1 * np.arange(b - a)
            pc[c:d] = -0.5 + 0.13 * np.arange(d - c)
            sigs.add(self.expect(apply_aberration(base, mc, pc), mc, pc,
                                 f"{k} coefficients, magnitude nonzero in {a}:{b}, phase in {c}:{d}"))
            n += 1
        return dict(evals=n, sigs=sigs)

    def run_scales(self, case):
        """Coefficients that differ by orders of magnitude."""
        from pyotf.otf import apply_aberration

        n, sigs = 0, set()
        base = self.base()
        for k, i in itertools.product((1, 2, 6, 15), repeat=2):
            i = min(i, k) - 1
            for small in (1e-2, 5e-4, -1e-5, 1e-7):
                for rest in (0.0, 0.3):
                    mc, pc = np.full(k, rest), np.full(k, 2 * rest)
                    for a in (mc, pc):
                        a[i] = small
                    for a, b in ((mc, None), (None, pc), (mc, pc)):
                        got = apply_aberration(base, a, b)
                        z = np.zeros(k)
                        sigs.add(self.expect(got, z if a is None else a, z if b is None else b,
                                             f"{k} coefficients {rest}, one {small}, mag={a is not None} "
                                             f"phase={b is not None}"))
                        n += 1
        return dict(evals=n, sigs=sigs)

    def run_counts(self, case):
        from pyotf.otf import apply_aberration

        n, sigs = 0, set()
        for k in list(range(0, 23)) + [35, 36, 37, 66, 119, 120]:
            mc = 0.05 * np.cos(2.3 * np.arange(k))
            pc = 0.3 * np.sin(1 + np.arange(k))
            z = np.zeros(k)
            tol = 1e-9 if k <= 60 else 1e-8
            for a, b in ((mc, pc), (None, pc), (mc, None), (z, z)):
                m = apply_aberration(self.base(), a, b)
                sigs.add(self.expect(m, z if a is None else a, z if b is None else b,
                                     f"{k} coefficients mag={a is not None} phase={b is not None}", tol=tol))
                n += 1
            # whole-number coefficients
            pi = np.arange(k) % 3 - 1
            m = apply_aberration(self.base(), None, pi)
            sigs.add(self.expect(m, z, pi, f"{k} integer phase coefficients", tol=tol))
            m = apply_aberration(self.base(), pi, None)
            sigs.add(self.expect(m, pi, z, f"{k} integer magnitude coefficients", tol=tol))
            n += 2
        for a, b in itertools.product(range(1, 9), repeat=2):
            if a != b:
                raises(Exception, lambda: apply_aberration(self.base(), np.ones(a), np.ones(b)),
                       f"{a} magnitude and {b} phase coefficients")
                n += 1
        m = apply_aberration(self.base(own=False), None, None)
        sigs.add(self.expect(m, [], [], "both omitted"))
        return dict(evals=n + 1, sigs=sigs)

    def run_names(self, case):
        from pyotf.otf import (HanserPSF, SheppardPSF, apply_aberration, apply_named_aberration,
                               apply_named_aberrations, named_aberration_to_pcoefs)

        n, sigs = 0, set()
        index = {refs.NAMES[k]: k for k in NAMES}
        order = [index[refs.noll(j)] for j in range(1, 16)]
        require(len(set(order)) == 15, "reference names")

        def vecof(d):
            c = np.zeros(15)
            for k, v in d.items():
                c[order.index(k)] += v
            return c

        base = self.base()
        z = np.zeros(15)
        for name in NAMES:
            for mag in (0, 1, -1, 0.37, -2.5, 7):
                c = vecof({name: mag})
                got = named_aberration_to_pcoefs(name, mag)
                close(got, c, f"named_aberration_to_pcoefs({name!r}, {mag})", 0)
                what = f"{name} {mag}"
                sigs.add(self.expect(apply_named_aberration(base, name, mag), z, c, what))
                sigs.add(self.expect(apply_named_aberrations(base, {name: mag}), z, c, what + " (dict)"))
                n += 3
        for a, b in itertools.permutations(NAMES, 2):
            d = {a: 0.6, b: -0.9}
            sigs.add(self.expect(apply_named_aberrations(base, d), z, vecof(d), f"{d}"))
            n += 1
        d = {k: 0.1 * (i - 7) for i, k in enumerate(NAMES)}
        sigs.add(self.expect(apply_named_aberrations(base, d), z, vecof(d), "all names"))
        sigs.add(self.expect(apply_named_aberrations(base, {}), z, z, "no names"))
        for bad in ("", "Tip", "tip ", "coma", "astigmatism", "trefoil", "primary  spherical", 2, None, ("tip",)):
            raises(KeyError, lambda: named_aberration_to_pcoefs(bad, 1), f"name {bad!r}")
            raises(KeyError, lambda: apply_named_aberration(base, bad, 1), f"name {bad!r}")
            raises(KeyError, lambda: apply_named_aberrations(base, {"tip": 1, bad: 1}), f"name {bad!r} second")
            raises(KeyError, lambda: apply_named_aberrations(base, {bad: 1, "tip": 1}), f"name {bad!r} first")
            n += 4
        s = SheppardPSF(*self.args[:4], 5, zres=self.args[0] / self.args[2] / 4, zsize=4)
        raises(Exception, lambda: apply_aberration(s, None, np.ones(3)), "Sheppard model")
        return dict(evals=n + 3, sigs=sigs)

    def run_ident(self, case):
        """Identities between aberrated models, independent of the Zernike reference."""
        from pyotf.otf import apply_aberration

        vec, size = case["vec"], case["size"]
        n, sigs = 0, set()
        idx = (2 * (size // 2) - np.arange(size)) % size
        for cond in CONDS:
            base = self.base(vec, cond, own=False)
            for k in (1, 3, 15):
                for pc in (np.zeros(k), np.r_[2.7, np.zeros(k - 1)], np.r_[-11.0, np.zeros(k - 1)]):
                    m = apply_aberration(base, None, pc)
                    close(m.PSFi, base.PSFi, f"{vec} {cond} zero/piston phase {pc[0]}: PSFi")
                    n += 1
                close(apply_aberration(base, np.zeros(k), None).PSFi, base.PSFi, "zero magnitudes")
            for j in range(1, 37):
                for c in (0.8, -1.9):
                    pc = np.zeros(36)
                    pc[j - 1] = c
                    pc[(j * 7) % 36] += 0.3
                    a = apply_aberration(base, None, pc).PSFi[1]
                    b = apply_aberration(base, None, -pc).PSFi[1]
                    close(b, a[idx][:, idx], f"{vec} {cond} mode {j} {c}: opposite phase is the mirrored PSF")
                    sigs.add(digest(a))
                    n += 1
        return dict(evals=n, sigs=sigs)


CHECK = C()
