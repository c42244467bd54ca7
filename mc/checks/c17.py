"""C17: every call sequence on retrieval results, every target size, every number of modes."""
import copy
import itertools

import numpy as np

from mc import refs
from mc.checks import c15
from mc.core import Check, close, digest, require

SLICES = {
    "all": slice(None), "4:": slice(4, None), ":3": slice(None, 3), "1:5:2": slice(1, 5, 2), "-2:": slice(-2, None),
    "list": [0, 3, 1], "array": np.array([2, 4]), "none": slice(0, 0), "rev": slice(None, None, -1),
    "mask": lambda k: np.arange(k) % 3 == 0, "onemask": lambda k: np.arange(k) == 2, "last": [-1, 0], "twice": [1, 1, 4],
}


def choose(s, k):
    """The selection named s among k modes."""
    return SLICES[s](k) if callable(SLICES[s]) else SLICES[s]


class Ref:
    """Reference for one result, from copies of its pupil taken at once."""

    def __init__(self, r, o, n, zs, zres):
        self.o, self.n, self.zs, self.zres = o, n, list(zs), zres
        self.mag, self.phase = np.array(r.mag), np.array(r.phase)
        self.keep = {k: np.array(getattr(r, k)) for k in ("mag", "phase", "mse", "pupil_diff", "mse_diff")}
        self.par = {k: getattr(r.model, k) for k in ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr",
                                                     "condition")}
        self.zrange = np.array(r.model.zrange)
        _, kx, kr = refs.lateral(o["wl"], o["na"], o["ni"], o["res"], n)
        ky, kx, kr = refs.lateral(o["wl"], o["na"], o["ni"], o["res"], n)
        self.rho, self.th = kr * o["wl"] / o["na"], np.arctan2(ky, kx)
        self.disk = self.rho <= 1
        self.fits, self.unique = {}, {}
        self.memo = {}

    def replaced(self, r):
        """The reference after the result's magnitude and phase were replaced."""
        other = copy.copy(self)
        other.mag, other.phase = 1.25 * self.mag[::-1] + 0.1 * self.disk, 0.8 * self.phase[:, ::-1] - 0.3 * self.disk
        other.fits, other.unique, other.memo = {}, {}, {}
        other.keep = dict(self.keep, mag=other.mag, phase=other.phase)
        return other

    def zern(self, k):
        return np.array([refs.zernike(*refs.noll(j), self.rho, self.th) for j in range(1, k + 1)])

    def fit(self, k):
        """Modes, projections of magnitude and phase, coefficients (None if not determined)."""
        if k not in self.fits:
            z = self.zern(k)
            a = z[:, self.disk].T
            u, s, vt = np.linalg.svd(a, full_matrices=False)
            keep = s > 1e-9 * s[0]
            if ((s < 1e-6 * s[0]) & (s > 1e-14 * s[0])).any():
                self.fits[k] = None  # rank numerically undecided
            else:
                coef = [vt[keep].T @ ((u[:, keep].T @ d[self.disk]) / s[keep]) for d in (self.mag, self.phase)]
                self.fits[k] = z, coef[0], coef[1]
                self.unique[k] = bool(keep.all() and len(s) == k)
        return self.fits[k]

    def planes(self, zsize=None, zrange=None):
        if zrange is not None:
            return np.atleast_1d(zrange)
        if zsize is not None:
            return refs.uniform_planes(zsize, self.zres)
        return self.zs

    def psf(self, pupil, size=None, zsize=None, zrange=None, key=None):
        o = self.o
        a = refs.hanser(o["wl"], o["na"], o["ni"], o["res"], self.n, self.planes(zsize, zrange), cond="none",
                        pupil=pupil)[0]
        i = abs(a) ** 2
        if size is None:
            return i
        out = np.zeros((len(i), size, size))
        for y in range(size):
            for x in range(size):
                yy, xx = y - size // 2 + self.n // 2, x - size // 2 + self.n // 2
                if 0 <= yy < self.n and 0 <= xx < self.n:
                    out[:, y, x] = i[:, yy, xx]
        return out

    def gen(self, kw):
        k = repr(kw)
        if k not in self.memo:
            self.memo[k] = self.psf(self.mag * np.exp(1j * self.phase), **kw)
        return self.memo[k]

    def zd(self, k, s, kw):
        key = (k, s, repr(kw))
        if key not in self.memo:
            z, mc, pc = self.fit(k)
            sl = choose("4:" if s is None else s, k)
            pupil = np.tensordot(mc, z, 1) * np.exp(1j * np.tensordot(pc[sl], z[sl], 1))
            self.memo[key] = self.psf(pupil, **kw)
        return self.memo[key]

    def check_unchanged(self, r, what):
        for k, v in self.keep.items():
            got = np.asarray(getattr(r, k))
            require(got.shape == v.shape and np.array_equal(got, v, equal_nan=True), what + f"result.{k} changed")
        for k, v in self.par.items():
            require(getattr(r.model, k) == v, what + f"model.{k} changed from {v} to {getattr(r.model, k)}")
        require(np.array_equal(r.model.zrange, self.zrange), what + "model.zrange changed")

    def check_fit(self, zd, k, what):
        f = self.fit(k)
        if f is None:
            return False
        z, mc, pc = f
        for name, got, want in (("mcoefs", zd.mcoefs, mc), ("pcoefs", zd.pcoefs, pc)):
            got = np.asarray(got)
            require(got.shape == (k,), what + f"{name} has shape {got.shape}")
            close(np.tensordot(got, z, 1), np.tensordot(want, z, 1), what + name + " projection", 1e-6)
            if self.unique[k]:
                close(got, want, what + name, 1e-6)
        return True

    def check_recon(self, zd, k, s, what):
        z, mc, pc = self.fit(k)
        sl = choose(s, len(mc))
        scale = max(abs(mc).max(), abs(pc).max(), 1e-3) * 30
        m, p = np.tensordot(mc[sl], z[sl], 1), np.tensordot(pc[sl], z[sl], 1)
        close(zd.mag(sl), m, what + f"mag({s})", 1e-7, scale)
        close(zd.phase(sl), p, what + f"phase({s})", 1e-7, scale)
        full_m, full_p = np.tensordot(mc, z, 1), np.tensordot(pc, z, 1)
        close(zd.complex_pupil(), full_m * np.exp(1j * full_p), what + "complex_pupil()", 1e-6, scale)
        close(zd.complex_pupil(sphase=sl), full_m * np.exp(1j * p), what + f"complex_pupil(sphase={s})", 1e-6, scale)
        close(zd.complex_pupil(smag=sl), m * np.exp(1j * full_p), what + f"complex_pupil(smag={s})", 1e-6, scale)


def result(case):
    """A result of the real retrieval and its reference."""
    from pyotf.phaseretrieval import retrieve_phase

    c = dict(case, kind=case.get("kind", "ab"))
    data, p, zs = c15.make(c), c15.params(c), c15.planes(c)
    r = retrieve_phase(data, p, 4, 0, 0, case.get("po", False))
    zres = p.get("zres", p["res"])
    return r, Ref(r, c15.optics(c), case["n"], zs, zres)


def ops(n):
    return [("gen", {}), ("gen", dict(size=n - 1)), ("gen", dict(size=n + 2, zsize=4)), ("gen", dict(zsize=1)),
            ("gen", dict(zrange=[-250.0, 40.0])), ("gen", dict(zrange=120.0, size=n + 1)), ("fit", 4), ("fit", 7),
            ("zd", None, {}), ("zd", None, dict(size=n - 2, zrange=(10.0, 90.0, 400.0))), ("zd", "all", dict(zsize=3)),
            ("pupil",), ("recon", "1:5:2"), ("replace",)]


class C(Check):
    id = "C17"
    level = "model_checking"
    chunk = 1
    rule = ("Every sequence of calls and replacements of the pupil to the depth on results of several sizes and plane sets, every returned value "
            "compared with the reference and every earlier result and decomposition with its value at the time; "
            "every target size x plane request; every number of modes 1..120; every selection of modes; every "
            "single mode and pair of modes for exactness.")
    assumptions = ["a fit whose design matrix has numerically undecided rank is skipped"]

    def cases(self, tier):
        th = tier == "thorough"
        for n in (5, 6, 8, 9) if th else (6, 7):
            for z in ("uniform", "explicit"):
                for first in range(len(ops(n))):
                    yield dict(t="seq", n=n, nz=3, z=z, first=first, depth=4 if th and n == 5 else 3,
                               po=bool(n % 2), extra=n % 2)
        for n in range(2, 14 if th else 10):
            for z in ("uniform", "explicit"):
                for nz in (1, 2, 4) if th else ((1, 3) if n % 2 else (2,)):
                    yield dict(t="gen", n=n, nz=nz, z=z)
        for n in (4, 7, 16, 25, 40) if th else (7, 16, 25):
            for lo in range(1, 121, 8):
                yield dict(t="fit", n=n, nz=2, z="uniform", lo=lo, hi=lo + 8)
        for opt in range(1, len(c15.OPTS)):
            for n in (8, 9, 16) if th else (8, 9):
                for lo in range(1, 65 if th else 33, 8):
                    yield dict(t="fit", n=n, nz=2, z="uniform", lo=lo, hi=lo + 8, opt=opt)
                for z in ("uniform", "explicit"):
                    yield dict(t="gen", n=n, nz=2, z=z, opt=opt)
        for n in (32, 33, 64, 65, 100):
            for z in ("uniform", "explicit"):
                yield dict(t="gen", n=n, nz=2, z=z, sizes=(None, 1, n // 2, n - 1, n + 1, 64, 65, 128, 129))
            yield dict(t="fit", n=n, nz=2, z="uniform", lo=14, hi=17)
            yield dict(t="fit", n=n, nz=2, z="uniform", lo=57, hi=58)
        for n in (9, 16, 25) if th else (16, 25):
            for j in range(1, 37 if th else 16):
                yield dict(t="exact", n=n, j=j, jmax=36 if th else 15)

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def do(self, r, ref, op, st, what):
        """st: dict(k=number of fitted modes or 0, held=[(decomposition, k, reference)], fit=reference of the last fit)."""
        if op[0] == "replace":
            new = st["other"] if ref is st["first"] else st["first"]
            r.mag, r.phase = new.mag.copy(), new.phase.copy()
            st["now"] = new
        elif op[0] == "gen":
            close(r.generate_psf(**op[1]), ref.gen(op[1]), what + f"generate_psf({op[1]})", 1e-9)
        elif op[0] == "pupil":
            close(r.complex_pupil, ref.mag * np.exp(1j * ref.phase), what + "complex_pupil", 1e-12)
        elif op[0] == "fit":
            zd = r.fit_to_zernikes(op[1])
            require(r.zd_result is zd, what + "the decomposition is not kept")
            ref.check_fit(zd, op[1], what)
            st["k"], st["fit"] = op[1], ref
            st["held"].append((zd, op[1], ref))
        else:
            if not st["k"]:
                return False
            if op[0] == "zd":
                kw = dict(op[2])
                if op[1] is not None:
                    kw["sphase"] = choose(op[1], st["k"])
                close(r.generate_zd_psf(**kw), st["fit"].zd(st["k"], op[1], op[2]), what + f"generate_zd_psf({kw})", 1e-6)
            else:
                st["fit"].check_recon(r.zd_result, st["k"], op[1], what)
        return True

    def run_seq(self, case):
        n = case["n"]
        al = ops(n)
        states, tr, runs = set(), 0, 0
        r0, ref = result(case)
        other = ref.replaced(r0)
        for f in (4, 7):
            require(ref.fit(f) is not None and other.fit(f) is not None, "internal: undecided rank")
        for rest in itertools.product(range(len(al)), repeat=case["depth"] - 1):
            seq = (case["first"],) + rest
            # every sequence starts from a result nothing was called on
            r, _ = result(case)
            ref.check_unchanged(r, "repeated retrieval: ")
            st = dict(k=0, held=[], first=ref, other=other, now=ref)
            ok = True
            for i in seq:
                what = f"{[al[j] for j in seq]}: "
                if not self.do(r, st["now"], al[i], st, what):
                    ok = False
                    break
                tr += 1
                states.add((n, case["z"], st["k"], st["now"] is ref, i))
            if not ok:
                continue
            st["now"].check_unchanged(r, what)
            for zd, k, at in st["held"]:
                at.check_fit(zd, k, what + "earlier decomposition: ")
            self.do(r, st["now"], ("gen", {}), st, what + "then ")
            self.do(r, st["now"], ("pupil",), st, what + "then ")
            runs += 1
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=states)

    def run_gen(self, case):
        r, ref = result(case)
        n, runs, sigs = case["n"], 0, set()
        for size in case.get("sizes") or (None,) + tuple(range(1, 2 * n + 3)):
            for kw in ({}, dict(zsize=1), dict(zsize=4), dict(zsize=5), dict(zrange=[-200.0, 35.0, 610.0]),
                       dict(zrange=-90.0), dict(zrange=(0, 100)), dict(zsize=4, zrange=[15.0, -70.0]),
                       dict(zsize=2, zrange=[15.0, -70.0])):
                k = dict(kw) if size is None else dict(kw, size=size)
                got = r.generate_psf(**k)
                close(got, ref.gen(k), f"generate_psf({k})", 1e-9)
                runs += 1
                sigs.add(digest(got))
        ref.check_unchanged(r, "")
        return dict(evals=runs, sigs=sigs)

    def run_fit(self, case):
        r, ref = result(case)
        runs = skipped = 0
        sigs = set()
        for k in range(case["lo"], min(case["hi"], 121)):
            zd = r.fit_to_zernikes(k)
            if not ref.check_fit(zd, k, f"fit_to_zernikes({k}): "):
                skipped += 1
                continue
            if not ref.unique[k]:
                pass  # many coefficient vectors are least-squares solutions
            elif k >= 5 and k % 8 < 2:
                for s in SLICES:
                    ref.check_recon(zd, k, s, f"fit_to_zernikes({k}): ")
                    runs += 1
                kw = dict(size=case["n"] + 1)
                close(r.generate_zd_psf(**kw), ref.zd(k, None, kw), f"generate_zd_psf after {k}", 1e-6)
                kw = dict(zsize=2)
                close(r.generate_zd_psf(sphase=SLICES[":3"], **kw), ref.zd(k, ":3", kw), f"generate_zd_psf(:3), {k}",
                      1e-6)
            else:
                close(zd.complex_pupil(), np.tensordot(ref.fit(k)[1], ref.fit(k)[0], 1)
                      * np.exp(1j * np.tensordot(ref.fit(k)[2], ref.fit(k)[0], 1)), f"complex_pupil after {k}", 1e-6)
            runs += 1
            sigs.add(digest(np.asarray(zd.pcoefs)))
        ref.check_unchanged(r, "")
        return dict(evals=runs, sigs=sigs, skipped=skipped)

    def run_exact(self, case):
        """Pupils that are combinations of modes are decomposed into exactly those."""
        from pyotf.otf import HanserPSF
        from pyotf.phaseretrieval import PhaseRetrievalResult

        n, j, o = case["n"], case["j"], dict(c15.OPT)
        ky, kx, kr = refs.lateral(o["wl"], o["na"], o["ni"], o["res"], n)
        rho, th = kr * o["wl"] / o["na"], np.arctan2(ky, kx)
        K, runs, sigs, skipped = case["jmax"], 0, set(), 0
        z = np.array([refs.zernike(*refs.noll(i), rho, th) for i in range(1, K + 1)])
        sv = np.linalg.svd(z[:, rho <= 1].T, compute_uv=False)
        for i in range(1, K + 1):
            mc, pc = np.zeros(K), np.zeros(K)
            mc[0], mc[i - 1] = 1.0, mc[i - 1] + 0.2
            pc[j - 1] += 0.7
            pc[i - 1] -= 0.45
            model = HanserPSF(size=n, zsize=2, vec_corr="none", condition="none", zres=300, **o)
            r = PhaseRetrievalResult(np.tensordot(mc, z, 1), np.tensordot(pc, z, 1), np.zeros(1), np.zeros(1),
                                     np.zeros(1), model)
            for k in sorted({max(i, j), K}):
                s = np.linalg.svd(z[:k, rho <= 1].T, compute_uv=False)
                if s[-1] < 1e-6 * s[0] or k > (rho <= 1).sum():
                    skipped += 1
                    continue
                zd = r.fit_to_zernikes(k)
                close(zd.mcoefs, mc[:k], f"mcoefs of mode {i}", 1e-7)
                close(zd.pcoefs, pc[:k], f"pcoefs of modes {j}, {i}", 1e-7)
                close(zd.mag(slice(None)), np.tensordot(mc, z, 1), f"mag of mode {i}", 1e-7)
                close(zd.phase(slice(None)), np.tensordot(pc, z, 1), f"phase of modes {j}, {i}", 1e-7)
                runs += 1
                sigs.add((n, i, j, k))
        return dict(evals=runs, sigs=sigs, skipped=skipped)


CHECK = C()
