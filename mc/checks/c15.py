"""C15: retrieve_phase against a reference transition system, for every limit and tolerance placement."""
import numpy as np

from mc import refs
from mc.core import Check, Violation, close, digest, require

OPT = dict(wl=520, na=0.85, ni=1.0, res=130)
# further optics; the second has pixels exactly on the rim of the pupil at even sizes that are powers of two
OPTS = (OPT, dict(wl=512, na=1.0, ni=1.5, res=128), dict(wl=0.6, na=1.35, ni=1.515, res=0.09),
        dict(wl=500.5, na=1, ni=1, res=110.0), dict(wl=488, na=0.4, ni=1.33, res=300),
        dict(wl=520, na=0.85, ni=1.0, res=260))  # several samples in the pupil at four samples a side
KINDS = ("ab", "neg", "int", "u16", "spot", "f32", "uneven")


def optics(case):
    return OPTS[case.get("opt", 0)]


def step(case):
    return 300 if optics(case)["wl"] > 1 else 0.3


def planes(case):
    nz = case["nz"]
    if case["z"] == "uniform":
        return [(i - nz // 2) * step(case) for i in range(nz)]
    if case["z"] == "down":
        return [(nz // 2 - i) * step(case) for i in range(nz)]
    if case["z"] == "focus":
        return [0.0] * nz
    if case["z"] == "repeat":
        return [[0.0, 0.0, 300.0, 300.0, -300.0][i] * (step(case) / 300) for i in range(nz)]
    if case["z"] == "far":
        return [(700.0 + 90 * i) * (step(case) / 300) for i in range(nz)]
    if case["z"] == "mixed":
        return [[150.0, -400.0, 900.0, 20.0, 150.0][i] * (step(case) / 300) for i in range(nz)]
    return [[-400.0, 150.0, 330.0, 900.0, -70.0][i] * (step(case) / 300) for i in range(nz)]


def hash_noise(shape):
    i = np.arange(int(np.prod(shape)), dtype=np.int64).reshape(shape)
    return ((i * 7919 + 104729 * (i % 13) ** 2) % 1009) / 1009.0


def make(case):
    n, kind = case["n"], case["kind"]
    o = dict(optics(case))
    zs = planes(case)
    mc = [0, .1, 0, .05, 0, -.1]
    pc = [0, .3, -.2, .4, .5, -.3]
    p = refs.aberrated_pupil(o["wl"], o["na"], o["ni"], o["res"], n, mc, pc)
    a = refs.hanser(o["wl"], o["na"], o["ni"], o["res"], n, zs, cond="none", pupil=p)[0]
    i = abs(a) ** 2
    i = i / i.max()
    h = hash_noise(i.shape)
    if kind == "ab":
        return i * 0.02 + 3e-4 * h
    if kind == "neg":
        return (i + 0.2 * (h - 0.4)) * 0.05
    if kind == "int":
        return np.rint(i * 900 + 30 * (h - 0.5)).astype(np.int32)
    if kind == "u16":
        return np.rint(i * 40000 + 9000 * h).astype(np.uint16)
    if kind == "spot":
        d = np.zeros(i.shape)
        d[i.shape[0] // 2, n // 2, max(n // 2 - 1, 0)] = 2.0
        d[0, 0, 0] = 0.5
        return d
    if kind == "f32":
        return (i * 0.5 + 0.05 * h).astype(np.float32)
    return i * np.linspace(1, 3, i.shape[0])[:, None, None] + 0.1 * h


def params(case):
    o = dict(optics(case))
    if case["z"] == "uniform":
        o["zres"] = step(case)
    else:
        o["zrange"] = planes(case)
    if case.get("extra"):
        # documented to be overridden by the data and by the algorithm
        o.update(vec_corr="total", condition="herschel", size=11, zsize=9)
        if "zrange" in o:
            o["zres"] = 77
    return o


def gaps(vals, floor):
    """A tolerance below, between each two successive and above all values, none closer than 1 % to a value.

    Values below `floor` are rounding noise and share the gap above them.
    """
    v = sorted(x for x in vals if np.isfinite(x) and x > floor)
    if any(x <= floor for x in vals):
        v = [floor] + v
    out = [0.0]
    if v:
        out += [v[0] / 2] + [(a * b) ** .5 for a, b in zip(v, v[1:]) if b > a * 1.02] + [v[-1] * 2]
    return out


class C(Check):
    id = "C15"
    chunk = 1
    rule = ("Every data size x plane count x plane spacing x data kind x phase_only; for each, every iteration limit "
            "with tolerances zero, and every pair of tolerances chosen in every gap between successive recorded "
            "values. Outcome signature: records and returned pupil.")
    assumptions = ["runs whose phases are undefined (model amplitude below 1e-7 of its maximum where data is "
                   "positive) are skipped", "values compared to 1e-6, for single-precision square roots 1e-4"]

    def cases(self, tier):
        th = tier == "thorough"
        for n in range(2, 13 if th else 8):
            for nz in range(1, 6 if th else 4):
                for z in ("uniform", "explicit"):
                    for kind in KINDS:
                        if not th and (n + nz + KINDS.index(kind)) % 2 and kind not in ("ab", "int"):
                            continue
                        for po in (False, True):
                            yield dict(t="runs", n=n, nz=nz, z=z, kind=kind, po=po, K=8 if th else 5,
                                       extra=(n + nz) % 2)
        for opt in range(1, len(OPTS)):
            for n in (2, 4, 5, 8) + ((3, 6, 7, 16) if th else ()):
                for nz, z, kind in ((1, "uniform", "ab"), (3, "explicit", "neg"), (2, "uniform", "int")):
                    for po in (False, True):
                        yield dict(t="runs", n=n, nz=nz, z=z, kind=kind, po=po, K=4, opt=opt)
        for opt in range(len(OPTS)):
            for n in (5, 8) if not th else (4, 5, 7, 8, 12):
                for nz, kind in ((1, "neg"), (3, "ab"), (4, "uneven")):
                    for po in (False, True):
                        yield dict(t="long", n=n, nz=nz, z="explicit", kind=kind, po=po, K=150 if th else 60, opt=opt)
        for i, (n, nz) in enumerate(((16, 2), (32, 1), (33, 3), (64, 2), (65, 1), (100, 2), (128, 1), (6, 16), (5, 33), (7, 64),
                                     (4, 100), (8, 12))):
            for po in (False, True):
                yield dict(t="runs", n=n, nz=nz, z="uniform", kind=KINDS[i % 3], po=po, K=3, opt=i % 4 if n < 65 else 0)
        for n in (7, 8, 9, 12):
            for nz in (2, 3, 4, 5):
                for z in ("down", "mixed", "focus", "repeat", "far"):
                    for opt in range(3):
                        yield dict(t="runs", n=n, nz=nz, z=z, kind=KINDS[(n + nz) % 2], po=nz == 3, K=3, opt=opt)
        for n in (4, 7):
            for nz in (1, 3):
                for po in (False, True):
                    yield dict(t="default", n=n, nz=nz, z="uniform", kind="int", po=po)
        for res in (130, 200):
            for zres in (300, 1000):
                for sh in ((3, 7, 7), (2, 9, 9), (4, 8, 8)):
                    yield dict(t="slow", res=res, zres=zres, sh=sh)
        yield dict(t="refuse")

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def call(self, data, p, *a, **k):
        from pyotf.phaseretrieval import retrieve_phase

        return retrieve_phase(data, p, *a, **k)

    def run_runs(self, case):
        data, p = make(case), params(case)
        zs = planes(case)
        o = optics(case)
        ref = refs.Retrieval(data, o["wl"], o["na"], o["ni"], o["res"], zs, case["po"])
        K = case["K"]
        ref.run(K)
        if ref.cond < 1e-7 or ref.margin < 1e-9:
            return dict(evals=0, skipped=1)
        # the square roots of 16-bit and single precision data are single precision
        tol, floor = (1e-4, 1e-5) if case["kind"] in ("u16", "f32") else (1e-6, 1e-11)
        runs = [(k, 0.0, 0.0) for k in range(1, K + 1)]
        for pt in gaps(ref.pupil_diff, floor):
            for mt in gaps(ref.mse_diff + ref.mse, floor):
                runs.append((K, pt, mt))
        # the same limits must also act when fewer iterations are allowed
        pg, mg = gaps(ref.pupil_diff, floor), gaps(ref.mse_diff + ref.mse, floor)
        runs += [(k, pg[len(pg) // 2], 0.0) for k in range(1, K)] + [(k, 0.0, mg[len(mg) // 2]) for k in range(1, K)]
        sigs = set()
        for j, (k, pt, mt) in enumerate(runs):
            what = f"max_iters={k} pupil_tol={pt:.3g} mse_tol={mt:.3g}: "
            if j % 2:
                r = self.call(data, p, k, pt, mt, case["po"])
            else:
                r = self.call(data, p, max_iters=k, pupil_tol=pt, mse_tol=mt, phase_only=case["po"])
            n, pupil = ref.stop(k, pt, mt)
            for name in ("mse", "mse_diff", "pupil_diff"):
                got = np.asarray(getattr(r, name))
                want = np.array(getattr(ref, name)[:n])
                require(got.shape == want.shape, f"{what}{name} has {got.shape} records, expected {want.shape}")
                require(np.isnan(got[0]) == np.isnan(want[0]), what + name + " first record")
                # relative changes lose digits when the change is small
                for a, b in zip(got, want):
                    require(np.isnan(b) and np.isnan(a) or abs(a - b) <= tol * abs(b) + floor * (name != "mse"),
                            f"{what}{name}: {got}, expected {want}")
            close(r.complex_pupil, pupil, what + "complex_pupil", tol)
            close(r.mag * np.exp(1j * r.phase), pupil, what + "mag, phase", tol)
            sigs.add(digest(np.array(n), np.asarray(pupil)))
        return dict(evals=len(runs), sigs=sigs, traces=len(runs))

    def run_long(self, case):
        """Many iterations, compared as long as no phase was nearly undefined."""
        data, p, o = make(case), params(case), optics(case)
        ref = refs.Retrieval(data, o["wl"], o["na"], o["ni"], o["res"], planes(case), case["po"])
        K = 0
        while K < case["K"]:
            ref.run(K + 5)
            if ref.cond < 1e-5 or ref.margin < 1e-9:
                break
            K += 5
        if not K:
            return dict(evals=0, skipped=1)
        r = self.call(data, p, K, 0, 0, case["po"])
        n, pupil = ref.stop(K, 0, 0)
        require(len(r.mse) == n, f"{len(r.mse)} records, expected {n}")
        close(r.mse, np.array(ref.mse[:n]), "mse", 1e-6)
        close(r.complex_pupil, pupil, f"pupil after {n} iterations", 1e-5)
        # the run with fewer iterations is its prefix
        for k in (K - 1, K // 2):
            q = self.call(data, p, k, 0, 0, case["po"])
            for name in ("mse", "mse_diff", "pupil_diff"):
                got, want = np.asarray(getattr(q, name)), np.asarray(getattr(r, name))[:k]
                require(np.array_equal(got, want[:len(got)], equal_nan=True) and len(got) == min(k, n),
                        f"{k} iterations: {name} is no prefix")
        return dict(evals=3, sigs=[digest(np.array(n), np.asarray(pupil))], stats=dict(iterations=K))

    def run_slow(self, case):
        """Structureless stacks, on which every omitted limit is the one that acts."""
        d = np.rint(90 * hash_noise(tuple(case["sh"])))
        d = np.fmax(0, d - d.min() - 30)
        p = dict(wl=520, na=0.85, ni=1.0, res=case["res"], zres=case["zres"])
        sigs = []
        for kw in ({}, dict(pupil_tol=0), dict(mse_tol=0), dict(pupil_tol=0, mse_tol=0), dict(phase_only=True)):
            r = self.call(d.copy(), dict(p), **kw)
            self.limits(r, kw)
            q = self.call(d.copy(), dict(p), 260, kw.get("pupil_tol", 1e-8), kw.get("mse_tol", 1e-8), kw.get("phase_only", False))
            n = min(len(q.mse), 200)
            for name in ("mse", "mse_diff", "pupil_diff"):
                require(np.array_equal(getattr(r, name), getattr(q, name)[:n], equal_nan=True),
                        f"{kw}: {name} is not that of the stated default limits")
            sigs.append(len(r.mse))
        return dict(evals=2 * len(sigs), sigs=sigs)

    @staticmethod
    def limits(r, kw):
        pt, mt = kw.get("pupil_tol", 1e-8), kw.get("mse_tol", 1e-8)
        hit = [i for i in range(len(r.mse)) if r.mse[i] < mt or r.mse_diff[i] < mt or r.pupil_diff[i] < pt]
        require(len(r.mse) == len(r.mse_diff) == len(r.pupil_diff), "records differ in length")
        want = hit[0] + 1 if hit else 200
        require(len(r.mse) == want, f"default limits with {kw}: {len(r.mse)} records, first below a limit: {want}")

    def run_default(self, case):
        """Default limits, judged on the records themselves: stopped at the first record below a limit."""
        data, p = make(case), params(case)
        r = self.call(data, p, phase_only=case["po"])
        self.limits(r, {})
        return dict(sig=len(r.mse))

    def run_refuse(self, case):
        good = np.ones((3, 6, 6)) + hash_noise((3, 6, 6))
        p = dict(OPT, zres=300)
        bad = [(np.ones(s), {}) for s in ((3, 6, 5), (3, 5, 6), (1, 2, 3), (6, 6), (2, 3, 6, 6), (1, 3, 4, 4),
                                          (4, 4, 4, 4), (6,), (3, 3), (3, 6, 1), (3, 1, 6), (1, 6, 1), (1, 1, 6), (6, 2, 1))]
        bad += [(good, dict(max_iters=k)) for k in (0, -1, -200)]
        for d, k in bad:
            try:
                self.call(d, p, **k)
            except Exception:  # noqa: any refusal
                continue
            raise Violation(f"accepted data of shape {d.shape} with {k}")
        self.call(good, p, max_iters=1)
        return dict(evals=len(bad) + 1, sigs=range(len(bad)))


CHECK = C()
