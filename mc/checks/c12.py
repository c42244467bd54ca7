"""C12: padding, cropping, slicing and extents against index arithmetic."""
import itertools

import numpy as np

from mc import refs
from mc.core import Check, close, raises, require

MODES = ("constant", "edge", "wrap", "median", "maximum", "mean")


def rule(old, new):
    """Samples put before; negative when cropping: index (old+1)//2 lands on (new+1)//2."""
    return (new + 1) // 2 - (old + 1) // 2


def reference(a, newshape, mode, **kw):
    pads, sl = [], []
    for o, n in zip(a.shape, newshape):
        b = rule(o, n)
        e = n - o - b
        sl.append(slice(max(0, -b), o - max(0, -e)))
        pads.append((max(0, b), max(0, e)))
    return np.pad(a[tuple(sl)], pads, mode=mode, **kw), pads, sl


def smooth5(n):
    while True:
        m = n
        for p in (2, 3, 5):
            while m % p == 0:
                m //= p
        if m == 1:
            return n
        n += 1


class C(Check):
    id = "C12"
    level = "exploration"
    chunk = 8
    rule = ("Every old/new size to the bound in one dimension, every mixture to a bound in two and three dimensions "
            "with unspecified entries, every fill mode; every centre and width incl. fractional; every grid size; "
            "non-trivial: distinct (old shape, new shape).")
    assumptions = ["numpy.pad's fill modes are trusted; an axis is never cropped to nothing"]

    def cases(self, tier):
        th = tier == "thorough"
        for o in range(1, 61 if th else 33):
            yield dict(t="pad1", o=o, top=60 if th else 33)
        for o in itertools.product(range(1, 9 if th else 6), repeat=2):
            yield dict(t="padn", o=o, top=9 if th else 7)
        for o in itertools.product((1, 2, 3, 4), repeat=3):
            yield dict(t="padn", o=o, top=5)
        for o in (40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 1000):
            yield dict(t="pad1", o=o, tops=(1, 2, 7, 50, 63, 64, 65, 100, 128, 129, 243, 256, 257, 300, 512, 513, 1000, 1024))
        yield dict(t="padbig")
        yield dict(t="default")
        for x in [*range(-12, 41 if th else 21), 63, 64, 99, 100, 128, 150]:
            yield dict(t="slice1", x=x)
        yield dict(t="slicewide")
        yield dict(t="slicen")
        yield dict(t="slicebad")
        for n in [*range(1, 200 if th else 66), 127, 128, 255, 256, 257, 512, 1000, 2047]:
            yield dict(t="extent", n=n)

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def one(self, a, new, mode, **kw):
        from pyotf.utils import fft_pad

        full = tuple(o if n is None else n for o, n in zip(a.shape, new)) if isinstance(new, (tuple, list)) \
            else (int(new),) * a.ndim
        ref, pads, sl = reference(a, full, mode, **kw)
        out = fft_pad(a, new, mode=mode, **kw)
        what = f"fft_pad {a.shape} -> {new} mode={mode}"
        require(out.shape == full, f"{what}: shape {out.shape}")
        close(out, ref, what, 1e-12)
        inner = tuple(slice(b, n - e) for (b, e), n in zip(pads, full))
        require(np.array_equal(out[inner], a[tuple(sl)]), what + ": kept samples")
        if all(f >= o for f, o in zip(full, a.shape)):
            back = fft_pad(out, a.shape, mode=mode, **kw)
            require(np.array_equal(back, a), what + ": cropping back")
        return out

    def run_pad1(self, case):
        o = case["o"]
        a = (np.arange(o) * 7 % 11 + 1).astype(float)
        b = (np.arange(o) + 1) * (1 + 2j)
        k, sigs = 0, []
        for n in case["tops"] if "tops" in case else range(1, case["top"]):
            for mode in MODES:
                for new in (n, (n,), [n], np.int64(n)):
                    self.one(a, new, mode)
                    k += 1
            self.one(b, (n,), "constant")
            self.one(a, (n,), "constant", constant_values=3)
            self.one(a.astype(int), (n,), "constant")
            # nothing but zeros, or all equal, with and without a fill value
            for flat in (a * 0, a * 0 + 2.5, np.zeros(o, int), np.zeros(o, complex), np.full(o, 7)):
                self.one(flat, (n,), "constant", constant_values=7)
                self.one(flat, (n,), ("constant", "median", "mean")[n % 3])
            # every mode in every type, with sums that are no multiple of the length
            for j, t in enumerate((int, np.uint8, np.int16, np.float32, complex, np.uint64)):
                for mode in MODES + ("reflect", "symmetric", "minimum", "linear_ramp"):
                    if t is complex and mode in ("median", "maximum", "minimum", "mean", "linear_ramp") or \
                            mode == "reflect" and o == 1:
                        continue
                    if (o + n + j) % 3 == 0 or n <= 6:
                        self.one(a.astype(t), (n,), mode)
                        self.one(a[::-1].astype(t), (n,), mode)
                        k += 2
            self.one(a, (n,), "linear_ramp", end_values=-2)
            self.one(a, (n,), "constant", constant_values=(1, 5))
            out = self.one(np.arange(1, o + 1), (n,), "constant")
            i = (o + 1) // 2
            if i < o and (n + 1) // 2 < n:
                require(out[(n + 1) // 2] == i + 1, f"{o} -> {n}: centre")
            sigs.append((o, n))
            k += 16
        from pyotf.utils import fft_pad
        ref = reference(a, (o + 3,), "median")[0]
        close(fft_pad(a, o + 3), ref, "default mode is median", 1e-12)
        return dict(evals=k, sigs=sigs)

    def run_padbig(self, case):
        k, sigs = 0, []
        for o in ((100, 3), (64, 65), (3, 128), (5, 40, 41), (2, 128, 100), (70, 6, 5), (3, 3, 3, 40), (200, 199), (40000,),
                  (10, 90, 91)):
            a = (np.arange(int(np.prod(o))) * 13 % 17 + 1).astype(float).reshape(o)
            for d in ((0, 0, 0, 0), (5, -2, 30, 1), (-1, 7, -2, -17), (28, 0, -1, 8), (1, 1, 1, 1)):
                new = tuple(max(1, n + e) for n, e in zip(o, d))
                for mode in ("constant", "edge", "median"):
                    self.one(a, new, mode)
                    k += 1
                sigs.append((o, new))
        return dict(evals=k, sigs=sigs)

    def run_padn(self, case):
        o = tuple(case["o"])
        a = (np.arange(int(np.prod(o))) * 13 % 17 + 1).astype(float).reshape(o)
        k, sigs = 0, []
        for new in itertools.product((None,) + tuple(range(1, case["top"])), repeat=len(o)):
            for mode in ("constant", "edge", "median"):
                self.one(a, new, mode)
                k += 1
            sigs.append((o, new))
        for n in range(1, case["top"]):
            self.one(a, n, "constant")
            self.one(a, list((n,) * len(o)), "edge")
        from pyotf.utils import fft_pad
        for bad in (4.5, object()):
            raises((ValueError, TypeError), lambda: fft_pad(a, bad), f"new shape {bad!r}")
        return dict(evals=k, sigs=sigs)

    def run_default(self, case):
        from pyotf.utils import fft_pad

        sigs = []
        for n in range(1, 520):
            a = np.arange(n, dtype=float) + 1
            full = smooth5(n)
            for mode in ("constant", "median"):
                out = fft_pad(a, mode=mode)
                close(out, reference(a, (full,), mode)[0], f"default shape of {n}", 1e-12)
            sigs.append((n, full))
        for s in itertools.product((1, 5, 7, 11, 12, 13, 17), repeat=2):
            a = np.arange(s[0] * s[1], dtype=float).reshape(s)
            out = fft_pad(a)
            close(out, reference(a, tuple(map(smooth5, s)), "median")[0], f"default shape of {s}", 1e-12)
        return dict(evals=519 * 2 + 49, sigs=sigs)

    def check_slices(self, got, xs, ws, what):
        require(isinstance(got, tuple) and len(got) == len(xs), f"{what}: {got!r}")
        line = np.arange(400)
        for s, x, w in zip(got, xs, ws):
            x, w = refs.nearest_even(x), refs.nearest_even(w)
            exp = [i for i in range(x - w // 2, x - w // 2 + w) if i >= 0]
            require(line[s].tolist() == exp, f"{what}: {s} selects {line[s].tolist()}, expected {exp}")

    def run_slice1(self, case):
        from pyotf.utils import slice_maker

        k, sigs = 0, []
        for f in (0, 0.25, 0.49999, 0.5, 0.50001, 0.75):
            x = case["x"] + f if f else case["x"]
            for w in range(0, 26):
                for g in (0, 0.3, 0.5, 0.7):
                    ww = w + g if g else w
                    for xs, ws in (((x,), ww), ([x], [ww]), (np.array([x]), (ww,)), ((x, 20), ww), ((5, x), (3, ww))):
                        wl = [ww] * len(xs) if np.isscalar(ww) and np.isscalar(ws) else list(ws)
                        self.check_slices(slice_maker(xs, ws), xs, wl, f"slice_maker({xs}, {ws})")
                        k += 1
                    sigs.append((x, ww))
        return dict(evals=k, sigs=sigs)

    def run_slicewide(self, case):
        from pyotf.utils import slice_maker

        k = 0
        for x in (0, 1, 20, 50, 63, 64, 99.5, 100, 127, 200):
            for w in (26, 31, 32, 33, 63, 64, 65, 99, 100, 100.5, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300, 399):
                if refs.nearest_even(x) - refs.nearest_even(w) // 2 + w < 400:
                    self.check_slices(slice_maker((x, 7, 100), (w, w, 3)), (x, 7, 100), (w, w, 3), f"slice_maker({x}, {w})")
                    k += 1
        return dict(evals=k)

    def run_slicen(self, case):
        from pyotf.utils import slice_maker

        k = 0
        for xs in itertools.product((-3, 0, 4, 7.5), repeat=3):
            for ws in itertools.product((0, 1, 6, 4.5), repeat=3):
                self.check_slices(slice_maker(xs, ws), xs, ws, f"slice_maker({xs}, {ws})")
                k += 1
        return dict(evals=k)

    def run_slicebad(self, case):
        from pyotf.utils import slice_maker

        k = 0
        for xs, ws in (((3, 4), -1), ((3, 4), (2, -1)), ((3, 4), (-0.5, 2)), ((0,), -3), ((1, 2, 3), (1, 1, -2)),
                       ((3, 4), -0.1), ((3, 4), (-1e-9, 2))):
            raises(ValueError, lambda: slice_maker(xs, ws), f"slice_maker({xs}, {ws})")
            k += 1
        for xs, ws in (((3j, 4), 1), ((3, 4), 2j), ((3 + 0j, 4), 1), ((3, 4), (2, 1 + 1j)),
                       (np.array([1, 2], complex), 3)):
            raises(TypeError, lambda: slice_maker(xs, ws), f"slice_maker({xs}, {ws})")
            k += 1
        return dict(evals=k)

    def run_extent(self, case):
        from pyotf.display import fft_max_min, max_min

        n = case["n"]
        k = 0
        for d in (1, 1.0, 0.5, 3, 130.0, 0.09, 1 / 3):
            x = (np.arange(n) - n // 2) * d
            lo, hi = max_min(n, d)
            close(np.array([lo, hi], float), np.array([x[0], x[-1]], float), f"max_min({n}, {d})", 1e-12)
            f = (np.arange(n) - n // 2) / (n * d)
            lo, hi = fft_max_min(n, d)
            close(np.array([lo, hi], float), np.array([f[0], f[-1]], float), f"fft_max_min({n}, {d})", 1e-12)
            k += 2
        return dict(evals=k, sigs=[n])


CHECK = C()
