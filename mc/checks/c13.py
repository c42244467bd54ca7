"""C13: bin_ndarray and radial_profile against brute-force group-by."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc.core import Check, close, digest, raises, require

DTYPES = (float, int, np.uint8, np.int16, np.uint16, np.float32, complex, bool)


def data(shape, dtype, k=0):
    n = int(np.prod(shape))
    v = (np.arange(n) * 37 + 11 * k) % 251
    if dtype is complex:
        return (v - 100 + 1j * ((v * 7) % 97)).reshape(shape)
    if dtype is bool:
        return (v % 3 == 0).reshape(shape)
    if np.dtype(dtype).kind in "fi":
        v = v - 90
    if np.dtype(dtype).kind == "f":
        v = v * 0.25
    return v.astype(dtype).reshape(shape)


def blocks(a, bins, op):
    new = tuple(n // b for n, b in zip(a.shape, bins))
    exact = a.astype(complex)
    out = np.zeros(new, complex)
    for i in np.ndindex(new):
        s = sum(exact[j] for j in itertools.product(*[range(p * b, (p + 1) * b) for p, b in zip(i, bins)]))
        out[i] = s / (np.prod(bins) if op == "mean" else 1)
    return out


def rounded(d2, binsize):
    """Half-even rounding of sqrt(d2)/binsize; None if undecidable in floating point."""
    q = math.sqrt(d2) / binsize
    f = math.floor(q)
    if abs(q - f - 0.5) < 1e-9:
        r = math.isqrt(int(d2)) if d2 == int(d2) else None
        if r is None or r * r != d2 or Fraction(r) / Fraction(binsize) != f + Fraction(1, 2):
            return None
        return f if f % 2 == 0 else f + 1
    return int(round(q))


def groups(shape, centre, binsize):
    g = {}
    for i in np.ndindex(shape):
        k = rounded(sum((p - c) ** 2 for p, c in zip(i, centre)), binsize)
        if k is None:
            return None
        g.setdefault(k, []).append(i)
    return g


class C(Check):
    id = "C13"
    level = "exploration"
    chunk = 4
    rule = ("Every shape to the bound in 1-3 dimensions x every bin size not larger than it (scalar or per axis) or "
            "new shape x sum/mean x data types; every 2-D shape x every centre x bin size x data types, constants and "
            "deltas; non-trivial: distinct results.")
    assumptions = ["distances within 1e-9 of a rounding tie that are not exact ties are skipped",
                   "deviations compared to 3e-7 of the largest value (the variance is a difference)"]

    def cases(self, tier):
        th = tier == "thorough"
        for n in range(1, 40 if th else 25):
            yield dict(t="bin", shape=(n,))
        for s in itertools.product(range(1, 10 if th else 8), repeat=2):
            yield dict(t="bin", shape=s)
        for s in itertools.product(range(1, 6 if th else 5), repeat=3):
            yield dict(t="bin", shape=s)
        yield dict(t="bin", shape=(2, 4, 3, 5))
        for s, bins in (((100,), (11,)), ((100,), (25,)), ((100,), (100,)), ((129,), (16,)), ((256,), (32,)), ((64, 64), (16, 16)),
                        ((65, 64), (13, 32)), ((30, 41), (10, 11)), ((128, 6), (1, 3)), ((6, 128), (1, 12)),
                        ((40, 20, 21), (1, 5, 7)), ((3, 45, 45), (1, 15, 15)), ((70, 4, 4), (1, 2, 2)), ((33, 33), (33, 11)),
                        ((5, 50, 50), (1, 5, 5)), ((3, 77, 77), (1, 7, 11)), ((2, 99, 99), (1, 9, 9))):
            yield dict(t="bin", shape=s, bins=bins)
        yield dict(t="binbad")
        for s in itertools.product(range(1, 15 if th else 10), repeat=2):
            yield dict(t="radial", shape=s)
        for s in ((21, 21), (20, 20), (32, 33), (33, 32), (16, 40), (65, 65)):
            yield dict(t="radial", shape=s, big=True)
        for s in ((100, 100), (128, 127), (3, 200), (2, 600), (520, 3), (300, 260)):
            yield dict(t="radial", shape=s, big=True, few=True)

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def run_bin(self, case):
        from pyotf.utils import bin_ndarray

        s = tuple(case["shape"])
        k, sigs = 0, set()
        for bins in [tuple(case["bins"])] if "bins" in case else itertools.product(*[range(1, min(n, 9) + 1) for n in s]):
            for c, dtype in enumerate(DTYPES):
                if c > 1 and len(s) == 3 and sum(bins) % 3 != c % 3:
                    continue
                a = data(s, dtype, c)
                for op in ("sum", "mean"):
                    ref = blocks(a, bins, op)
                    if np.dtype(dtype).kind != "c":
                        ref = ref.real
                    forms = [bins, list(bins), np.array(bins)]
                    if len(set(bins)) == 1:
                        forms.append(bins[0])
                    for f in forms:
                        close(bin_ndarray(a, bin_size=f, operation=op), ref,
                              f"bin_ndarray {s} {np.dtype(dtype)} bin_size={f} {op}", 1e-6 if dtype is np.float32 else 1e-11)
                        k += 1
                    new = tuple(n // b for n, b in zip(s, bins))
                    if all(n % b == 0 for n, b in zip(s, bins)):
                        for f in (new, list(new)):
                            close(bin_ndarray(a, f, operation=op), ref, f"bin_ndarray {s} to {f} {op}",
                                  1e-6 if dtype is np.float32 else 1e-11)
                            k += 1
                    if dtype is float and op == "sum":
                        close(bin_ndarray(a, bin_size=bins), ref, "default operation", 1e-11)
                        for f in ("Sum", "SUM", "sUm"):
                            close(bin_ndarray(a, bin_size=bins, operation=f), ref, f"operation {f}", 1e-11)
                    if dtype is float and op == "mean":
                        for f in ("Mean", "MEAN", "meaN"):
                            close(bin_ndarray(a, bin_size=bins, operation=f), ref, f"operation {f}", 1e-11)
                    sigs.add(digest(ref))
            # all deltas: which block does each pixel go to
            if np.prod(s) <= 36:
                for i in np.ndindex(s):
                    d = np.zeros(s)
                    d[i] = 1
                    out = bin_ndarray(d, bin_size=bins)
                    ref = np.zeros(out.shape)
                    j = tuple(p // b for p, b in zip(i, bins))
                    if all(p < n for p, n in zip(j, out.shape)):
                        ref[j] = 1
                    close(out, ref, f"delta at {i} bins {bins}", 1e-12)
                    k += 1
        return dict(evals=k, sigs=sigs)

    def run_binbad(self, case):
        from pyotf.utils import bin_ndarray

        k = 0
        for s in itertools.product(range(1, 6), repeat=2):
            a = data(s, float)
            for new in itertools.product(range(1, 8), repeat=2):
                if any(n % b for n, b in zip(s, new)):
                    raises(ValueError, lambda: bin_ndarray(a, new), f"{s} -> {new}")
                    k += 1
            for new in ((1,), (1, 1, 1), s + (1,), s[:1]):
                raises(ValueError, lambda: bin_ndarray(a, new), f"{s} -> {new}")
                k += 1
            raises(ValueError, lambda: bin_ndarray(a), "neither shape nor bin size")
            for op in ("", "max", "summ", "median", "std"):
                raises(ValueError, lambda: bin_ndarray(a, s, operation=op), f"operation {op!r}")
                raises(ValueError, lambda: bin_ndarray(a, bin_size=1, operation=op), f"operation {op!r}")
                k += 2
        return dict(evals=k)

    def check_radial(self, a, what, g, **kw):
        from pyotf.utils import radial_profile

        mean, std = radial_profile(a, **kw)
        top = max(g)
        x = a.astype(complex)
        rm, rs = np.full(top + 1, np.nan, complex), np.full(top + 1, np.nan)
        for r, px in g.items():
            v = np.array([x[i] for i in px])
            rm[r] = v.mean()
            rs[r] = math.sqrt(v.real.var() + v.imag.var())
        if not np.iscomplexobj(a):
            rm = rm.real
        scale = max(1e-300, np.abs(x).max())
        close(mean, rm, what + " mean", 1e-10, scale=scale)
        require(not np.iscomplexobj(std), what + " std is complex")
        # root of a difference of sums: the rounding of the sums comes out as its square root
        n = max(len(px) for px in g.values())
        close(std, rs, what + " std", max(3e-7, 4 * math.sqrt(n * 2.3e-16)), scale=scale)
        return digest(mean)

    def run_radial(self, case):
        s = tuple(case["shape"])
        k, sigs, skipped = 0, set(), 0
        default = tuple(n // 2 for n in s)
        big = case.get("big")
        if big:
            centres = [default, (0, 0), (s[0] - 1, 3), (s[0] / 2 - 0.5, s[1] / 2 - 0.5)]
        else:
            centres = list(itertools.product(range(s[0]), range(s[1]))) + [(-1, 2), (s[0] + 1, s[1])] + \
                [((s[0] - 1) / 2, (s[1] - 1) / 2), (0.25, 1.3)]
        for centre in centres:
            for binsize in (1.0, 2.0, 3, 0.5, 1.7) if not case.get("few") else (1.0, 4):
                g = groups(s, centre, binsize)
                if g is None:
                    skipped += 1
                    continue
                arrays = [data(s, t, 3) for t in DTYPES[: 7 if binsize == 1 else 2]]
                arrays += [np.full(s, v) for v in (0.1, 1 / 3, 1e6 + 0.1, -7.3, 0.0)] + [np.full(s, 0.1 + 0.7j),
                                                                                     np.full(s, 200, np.uint8)]
                # odd about the centre: the rings average to zero
                odd = np.sign(np.indices(s)[0] - centre[0]) + np.sign(np.indices(s)[1] - centre[1]) * 3.0
                arrays += [odd, 1j * odd, 2.5 - 1j * odd]
                if not big and binsize == 1 and np.prod(s) <= 30:
                    for i in np.ndindex(s):
                        d = np.zeros(s)
                        d[i] = 1
                        arrays.append(d)
                for n, a in enumerate(arrays):
                    what = f"radial_profile {s} {a.dtype} array {n} centre={centre} binsize={binsize}"
                    for c in (centre, np.array(centre), list(centre)) if n == 0 else (centre,):
                        sigs.add(self.check_radial(a, what, g, center=c, binsize=binsize))
                        k += 1
                    if centre == default:
                        self.check_radial(a, what + " default centre", g, binsize=binsize)
                        if binsize == 1:
                            self.check_radial(a, what + " defaults", g)
                        k += 1
        return dict(evals=k, sigs=sigs, skipped=skipped)


CHECK = C()
