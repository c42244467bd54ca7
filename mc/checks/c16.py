"""C16: misfit, support, recognition and recovery over every iteration of every retrieval of the space."""
import numpy as np

from mc import refs
from mc.checks import c15
from mc.core import Check, close, digest, require

NAMES = tuple(sorted(refs.NAMES))
PLANES = ((-600.0, -300.0, 0.0, 300.0), (-700.0, -200.0, 150.0, 450.0, 900.0), (-900.0, -450.0, -200.0, 0.0, 240.0, 500.0))


def evaluate(pupil, data, o, zs):
    """Amplitude misfit of a centred pupil, by explicit DFT matrices."""
    a = refs.hanser(o["wl"], o["na"], o["ni"], o["res"], data.shape[-1], zs, cond="none", pupil=pupil)[0]
    return float(((np.sqrt(np.maximum(np.asarray(data, dtype=float), 0)) - abs(a)) ** 2).sum())


class C(Check):
    id = "C16"
    chunk = 1
    rule = ("Every iteration count to the limit on every data set (misfit non-increasing, support, unit magnitude); "
            "every size and plane set with data from the ideal pupil; every aberration name x size x plane set x "
            "sign and magnitude for recovery. Outcome signature: returned pupil.")
    assumptions = ["misfit compared to 1e-9 of its value, recovery to 1e-4 of the pupil norm after 200 iterations"]

    def cases(self, tier):
        th = tier == "thorough"
        for n in range(2, 13 if th else 8):
            for nz in range(1, 6 if th else 4):
                for z in ("uniform", "explicit"):
                    for kind in c15.KINDS:
                        if not th and (n + nz + c15.KINDS.index(kind)) % 2:
                            continue
                        for po in (False, True):
                            yield dict(t="mono", n=n, nz=nz, z=z, kind=kind, po=po, K=25 if th else 10)
        for opt in range(1, len(c15.OPTS)):
            for n in (2, 4, 5, 8) + ((3, 6, 7, 9, 16) if th else ()):
                for nz, z, kind in ((1, "uniform", "ab"), (3, "explicit", "neg"), (2, "explicit", "spot")):
                    for po in (False, True):
                        yield dict(t="mono", n=n, nz=nz, z=z, kind=kind, po=po, K=25 if th else 10, opt=opt)
        for n in range(2, 20 if th else 13):
            for nz in (1, 2, 3, 4):
                for po in (False, True):
                    for opt in range(len(c15.OPTS)):
                        if th or not opt or (n + nz + opt) % 2:
                            yield dict(t="ideal", n=n, nz=nz, po=po, opt=opt)
        for n in range(4, 16 if th else 12):
            for zi in range(len(PLANES) if th else 2):
                for amp in (0.3, -0.3, 0.5, -0.5) if th else ((0.5, -0.3) if n % 2 else (0.3, -0.5)):
                    for f in (0.35, 0.28) if th else (0.35,):
                        yield dict(t="recover", n=n, zi=zi, amp=amp, f=f, po=(n + zi) % 2 == 0)

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def shape_of(self, r, o, n, po, what):
        _, _, kr = refs.lateral(o["wl"], o["na"], o["ni"], o["res"], n)
        inside = kr < o["na"] / o["wl"]
        mag, phase = np.asarray(r.mag), np.asarray(r.phase)
        require(mag.shape == phase.shape == (n, n), what + f"pupil shape {mag.shape} {phase.shape}")
        require(not mag[~inside].any(), what + "magnitude outside the NA")
        require(not phase[~inside].any(), what + "phase outside the NA")
        require(not np.asarray(r.complex_pupil)[~inside].any(), what + "pupil outside the NA")
        require(bool((mag >= 0).all()), what + "negative magnitude")
        if po:
            close(mag[inside], np.ones(inside.sum()), what + "phase_only magnitude", 1e-9)

    def run_mono(self, case):
        from pyotf.phaseretrieval import retrieve_phase

        data, p, zs = c15.make(case), c15.params(case), c15.planes(case)
        o = c15.optics(case)
        if refs.hanser_margin(o["wl"], o["na"], o["ni"], o["res"], case["n"]) < 1e-9:
            return dict(evals=0, skipped=1)
        _, _, kr = refs.lateral(o["wl"], o["na"], o["ni"], o["res"], case["n"])
        last = evaluate((kr < o["na"] / o["wl"]).astype(complex), data, o, zs)
        scale = float(np.maximum(np.asarray(data, dtype=float), 0).sum())
        eps = 1e-5 if case["kind"] in ("u16", "f32") else 1e-9
        sigs = set()
        for k in range(1, case["K"] + 1):
            r = retrieve_phase(data, p, k, 0, 0, case["po"])
            self.shape_of(r, o, case["n"], case["po"], f"after {k} iterations: ")
            m = evaluate(np.asarray(r.complex_pupil), data, o, zs)
            require(m <= last * (1 + eps) + eps * 1e-2 * scale,
                    f"iteration {k} raised the amplitude misfit from {last!r} to {m!r}")
            last = m
            sigs.add(digest(np.asarray(r.complex_pupil)))
        return dict(evals=case["K"], sigs=sigs)

    def run_ideal(self, case):
        from pyotf.otf import HanserPSF
        from pyotf.phaseretrieval import retrieve_phase

        n, nz, sigs, runs = case["n"], case["nz"], set(), 0
        o, unit = c15.optics(case), c15.step(case) / 300
        for zr in (None, [z * unit for z in (-310.0, 120.0, 444.0, 50.0)][:nz]):
            kw = dict(o, **(dict(zres=300 * unit) if zr is None else dict(zrange=zr)))
            if refs.hanser_margin(o["wl"], o["na"], o["ni"], o["res"], n) < 1e-9:
                return dict(evals=0, skipped=1)
            data = HanserPSF(size=n, zsize=nz, vec_corr="none", condition="none", **kw).PSFi
            for k in ({}, dict(max_iters=1), dict(max_iters=7, pupil_tol=1e-3, mse_tol=1e-12)):
                r = retrieve_phase(data, dict(kw), phase_only=case["po"], **k)
                self.shape_of(r, o, n, case["po"], "")
                require(len(r.mse) == 1, f"ideal data took {len(r.mse)} iterations with {k}")
                _, _, kr = refs.lateral(o["wl"], o["na"], o["ni"], o["res"], n)
                close(r.complex_pupil, (kr < o["na"] / o["wl"]).astype(complex), f"pupil of ideal data {k}", 1e-9)
                runs += 1
            sigs.add(digest(data))
        return dict(evals=runs, sigs=sigs)

    def run_recover(self, case):
        from pyotf.otf import HanserPSF, apply_named_aberration
        from pyotf.phaseretrieval import retrieve_phase

        n, o = case["n"], dict(c15.OPT, res=520 * case["f"] / (2 * 0.85))
        zs, sigs = PLANES[case["zi"]], set()
        if refs.hanser_margin(o["wl"], o["na"], o["ni"], o["res"], n) < 1e-9:
            return dict(evals=0, skipped=1)
        kw = dict(o, zrange=zs)
        for name in NAMES:
            m = HanserPSF(size=n, zsize=len(zs), vec_corr="none", condition="none", **kw)
            data = np.array(apply_named_aberration(m, name, case["amp"]).PSFi)
            r = retrieve_phase(data, dict(kw), 200, 0, 0, case["po"])
            what = f"{name} {case['amp']}: "
            self.shape_of(r, o, n, case["po"], what)
            j = next(j for j in range(1, 16) if refs.noll(j) == refs.NAMES[name])
            pc = [case["amp"] if i == j else 0 for i in range(1, 16)]
            want = refs.aberrated_pupil(o["wl"], o["na"], o["ni"], o["res"], n, [0] * 15, pc)
            got = np.asarray(r.complex_pupil)
            ov = np.vdot(got, want)
            require(abs(ov) > 0, what + "no overlap")
            err = np.linalg.norm(got * ov / abs(ov) - want) / np.linalg.norm(want)
            require(err < 1e-4, f"{what}recovered pupil differs by {err:.3g} of its norm")
            sigs.add(digest(want))
        return dict(evals=len(NAMES), sigs=sigs)


CHECK = C()
