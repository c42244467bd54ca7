"""C14: data preparation against loop references on every small stack."""
import itertools
import math

import numpy as np

from mc.core import Check, close, digest, require

MULT = (1.5, 0, 1, 2, 0.3, -1, -0.7)


def mode_of(a):
    counts = {}
    for v in a.ravel().tolist():
        counts[v] = counts.get(v, 0) + 1
    return min(v for v, c in counts.items() if c == max(counts.values()))


def pad_rule(old, new):
    return (new + 1) // 2 - (old + 1) // 2


def first_max(a):
    best, where = None, None
    for i in np.ndindex(a.shape):
        if best is None or a[i] > best:
            best, where = a[i], i
    return where


def centred(a):
    w = first_max(a)
    out = np.empty_like(a)
    for i in np.ndindex(a.shape):
        out[tuple((p - m + n // 2) % n for p, m, n in zip(i, w, a.shape))] = a[i]
    return out


def embed(a, ny, nx):
    nz, oy, ox = a.shape
    out = np.zeros((nz, ny, nx))
    y0, x0 = pad_rule(oy, ny), pad_rule(ox, nx)
    out[:, y0:y0 + oy, x0:x0 + ox] = a
    return out


def reference(stack, xysize, mult):
    nz, ny, nx = stack.shape
    a = stack.astype(float) - mult * mode_of(stack)
    n = max(ny, nx) if xysize is None else xysize
    if n == ny == nx:
        out = a
    elif n >= max(ny, nx):
        out = embed(a, n, n)
    else:
        a = centred(embed(a, max(ny, n), max(nx, n)))
        y0, x0 = a.shape[1] // 2 - n // 2, a.shape[2] // 2 - n // 2
        out = a[:, y0:y0 + n, x0:x0 + n]
    return np.maximum(out, 0)


# values at the top of each type's range (or as far as counting them is affordable)
LIMITS = dict(uint8=255, int8=127, uint16=65535, int16=32767, int32=1 << 20, uint32=1 << 20, int64=(1 << 20) + 1)


class C(Check):
    id = "C14"
    level = "exploration"
    chunk = 1
    rule = ("Every integer stack of the listed small shapes over values 0..2 or 0..3; for larger shapes of every "
            "parity mix every position of the brightest voxel on structured backgrounds, x every target size x "
            "multiplier x integer type; values at the limits of every type; non-trivial: distinct prepared stacks.")
    assumptions = ["non-negative integers below 2**31 (numpy.bincount refuses others)"]

    def cases(self, tier):
        th = tier == "thorough"
        small = [((1, 2, 2), 4), ((2, 2, 2), 3 if th else 2), ((1, 3, 3), 3 if th else 2), ((1, 2, 3), 3),
                 ((1, 3, 2), 3), ((3, 1, 2), 3), ((1, 1, 1), 5), ((1, 1, 4), 4), ((1, 4, 1), 4), ((2, 1, 3), 3)]
        for shape, vals in small:
            total = vals ** int(np.prod(shape))
            step = 128
            for lo in range(0, total, step):
                yield dict(t="all", shape=shape, vals=vals, lo=lo, hi=min(total, lo + step))
        dims = range(1, 8 if th else 7)
        for nz in (1, 2, 3):
            for ny, nx in itertools.product(dims, repeat=2):
                yield dict(t="peak", shape=(nz, ny, nx))
        for shape in ((5, 16, 17), (4, 17, 16), (3, 33, 32)):
            yield dict(t="peak", shape=shape, sparse=True)
        for shape in ((2, 64, 65), (3, 100, 64), (40, 12, 12), (65, 5, 6), (100, 7, 7), (2, 128, 128), (1, 33, 130)):
            yield dict(t="peak", shape=shape, sparse=True, big=True)
        for shape in ((2, 300, 301), (1, 513, 512), (70, 64, 65)):
            yield dict(t="bigmode", shape=shape)
        for shape in ((64,), (129,), (1000,), (50, 60), (128, 3), (3, 128, 5), (40, 33, 34), (2, 3, 4, 5)):
            yield dict(t="bigcentre", shape=shape)
        for shape in [(n,) for n in range(1, 12)] + list(itertools.product(range(1, 6), repeat=2)) + \
                list(itertools.product(range(1, 4), repeat=3)):
            yield dict(t="center", shape=shape)
        yield dict(t="center_all")
        for dt in LIMITS:
            yield dict(t="limits", dt=dt)
        yield dict(t="scalar")

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def one(self, stack, xy, mult, kw=False):
        from pyotf.utils import prep_data_for_PR

        ref = reference(stack, xy, mult)
        out = prep_data_for_PR(stack, xysize=xy, multiplier=mult) if kw else prep_data_for_PR(stack, xy, mult)
        what = f"prep_data_for_PR({stack.tolist() if stack.size < 20 else stack.shape} {stack.dtype}, {xy}, {mult})"
        n = xy if xy is not None else max(stack.shape[1:])
        require(out.shape == (stack.shape[0], n, n), f"{what}: shape {out.shape}")
        close(out, ref, what, 1e-12, scale=max(1, ref.max()))
        return digest(out)

    def run_all(self, case):
        from pyotf.utils import prep_data_for_PR, remove_bg

        shape, vals = tuple(case["shape"]), case["vals"]
        size = int(np.prod(shape))
        k, sigs = 0, set()
        for code in range(case["lo"], case["hi"]):
            v = [(code // vals ** i) % vals for i in range(size)]
            for dtype in ((np.uint16, np.int64) if code % 5 else (np.uint8, np.int32, np.uint32)):
                stack = np.array(v, dtype=dtype).reshape(shape)
                for mult in (1.5, 1, 0):
                    close(remove_bg(stack, mult), stack.astype(float) - mult * mode_of(stack),
                          f"remove_bg({stack.tolist()} {stack.dtype}, {mult})", 1e-12, scale=1)
                    for xy in (None, 1, 2, 3, 4):
                        sigs.add(self.one(stack, xy, mult))
                        k += 1
            close(prep_data_for_PR(stack), reference(stack, None, 1.5), "defaults", 1e-12, scale=1)
            close(remove_bg(stack), stack - 1.5 * mode_of(stack), "remove_bg default", 1e-12, scale=1)
        return dict(evals=k, sigs=sigs)

    def run_peak(self, case):
        shape = tuple(case["shape"])
        k, sigs = 0, set()
        pos = list(np.ndindex(shape))
        sizes = [None] + list(range(1, max(shape[1:]) + 3))
        if case.get("sparse"):
            pos = pos[:: len(pos) // 7 or 1]
            sizes = [None, 8, 9, 15, 16, 17, 18, 32, 33, 34, 40]
        if case.get("big"):
            sizes = [None, 1, 6, 7, 12, 32, 63, 64, 65, 66, 99, 100, 127, 128, 129, 200]
        grid = np.indices(shape)
        for n, p in enumerate(pos):
            stack = 3 + (2 * grid[0] + grid[1] + 3 * grid[2]) % 4
            stack = np.where(stack > 5, stack, 4)
            stack[p] = 50
            ramp = 10 + grid[0] + 2 * grid[1] + 3 * grid[2]
            ramp[p] = 200
            tie = np.full(shape, 2)
            tie[p] = 9
            tie[tuple(s - 1 - q for s, q in zip(shape, p))] = 9
            for i, xy in enumerate(sizes):
                mult = MULT[(n + i) % len(MULT)]
                dt = (np.uint8, np.uint16, np.int16, np.int64, np.uint32)[(n + 2 * i) % 5]
                for s in (stack, ramp, tie):
                    sigs.add(self.one(s.astype(dt), xy, mult, kw=bool(i % 2)))
                    k += 1
        return dict(evals=k, sigs=sigs)

    def run_limits(self, case):
        """Values at the limits of the type."""
        from pyotf.utils import center_data, remove_bg

        top, dt = LIMITS[case["dt"]], case["dt"]
        k, sigs = 0, set()
        for shape in ((2, 3, 4), (1, 5, 4), (3, 4, 4)):
            i = np.arange(int(np.prod(shape)))
            for v in (np.where(i % 7 == 3, top, i % 3), np.where(i % 3 == 0, top, top - i % 5),
                      np.where(i % 5 < 3, top // 2 + 1, np.where(i % 5 == 3, top, 0)), np.full(i.shape, top),
                      np.where(i == 1, top - 1, np.where(i == 7, top, top // 3))):
                stack = v.astype(dt).reshape(shape)
                close(center_data(stack), centred(stack), f"center_data({stack.tolist()})", 0)
                for mult in (0, 0.5, 1, 1.5, 2, 3, -1):
                    close(remove_bg(stack, mult), stack.astype(float) - mult * mode_of(stack),
                          f"remove_bg({stack.tolist()} {dt}, {mult})", 1e-12, scale=top)
                    for xy in (None, 2, 3, 4, 5, 7):
                        sigs.add(self.one(stack, xy, mult))
                        k += 1
        return dict(evals=k, sigs=sigs)

    def run_bigmode(self, case):
        """The most frequent value wins by one voxel, wherever its voxels are."""
        from pyotf.utils import prep_data_for_PR, remove_bg

        shape, k, sigs = tuple(case["shape"]), 0, set()
        size = int(np.prod(shape))
        i = np.arange(size)
        # every second voxel, one end, one plane, the rim of the planes
        z, y, x = np.unravel_index(i, shape)
        for where in (i % 2 == 0, i % 2 == 1, i % 3 == 1, i < size // 3, i >= size - size // 4, z == shape[0] // 2, (y % 2 == 0) & (x % 2 == 1),
                      (y == 0) | (x == 0) | (y == shape[1] - 1) | (x == shape[2] - 1)):
            n = int(where.sum())
            if n == size:
                continue
            others = np.cumsum(~where) - 1
            # values in turn, each less often than the background
            stack = np.where(where, 3, 4 + others % (size // n + 1 + (size // n < 2)))
            counts = np.bincount(stack)
            require(counts.argmax() == 3, "the reference")
            stack[np.flatnonzero(~where)[len(others) // 7 % max(1, size - n)]] = 40000
            stack = stack.reshape(shape).astype(("uint16", "int64")[k % 2])
            for mult in (1.0, 1.5):
                what = f"background in {n} of {size} voxels of {shape}"
                close(remove_bg(stack, mult), stack.astype(float) - mult * 3, "remove_bg: " + what, 1e-12)
                p = prep_data_for_PR(stack, max(shape[1:]), mult)
                close(p, np.maximum(embed(stack.astype(float) - mult * 3, p.shape[1], p.shape[2]), 0), "prep_data_for_PR: " + what, 1e-12)
                sigs.add(digest(p.ravel()[:5000]))
                k += 1
        return dict(evals=k, sigs=sigs)

    def run_bigcentre(self, case):
        from pyotf.utils import center_data

        shape, k, sigs = tuple(case["shape"]), 0, set()
        size = int(np.prod(shape))
        for i in range(0, size, max(1, size // 23)):
            a = np.arange(size).reshape(shape) * 7 % 1009
            a.flat[i] = 5000
            if i % 2:
                a.flat[size - 1 - i // 2] = 5000
            w = first_max(a)
            want = a
            for ax, (p, n) in enumerate(zip(w, shape)):
                want = np.take(want, (np.arange(n) - n // 2 + p) % n, axis=ax)
            out = center_data(a)
            close(out, want, f"center_data {shape} with the maximum at {w}", 0)
            sigs.add(digest(out))
            k += 1
        return dict(evals=k, sigs=sigs)

    def run_center(self, case):
        from pyotf.utils import center_data

        shape = tuple(case["shape"])
        k, sigs = 0, set()
        size = int(np.prod(shape))
        for p in np.ndindex(shape):
            for dtype in (float, int, np.uint16):
                a = (np.arange(size).reshape(shape) % 5).astype(dtype)
                a[p] = 9
                out = center_data(a)
                require(out[tuple(n // 2 for n in shape)] == 9, f"center_data {shape} maximum at {p}")
                require(out.dtype == a.dtype, f"center_data dtype {out.dtype}")
                close(out, centred(a), f"center_data {shape} maximum at {p}", 0)
                for q in np.ndindex(shape):
                    if q > p and size < 20:  # a later equal maximum
                        b = a.copy()
                        b[q] = 9
                        close(center_data(b), centred(b), f"center_data {shape} maxima at {p} and {q}", 0)
                        k += 1
                sigs.add(digest(out))
                k += 1
        return dict(evals=k, sigs=sigs)

    def run_center_all(self, case):
        from pyotf.utils import center_data

        k, sigs = 0, set()
        for shape, vals in (((4,), 4), ((5,), 3), ((2, 3), 3), ((3, 2), 3), ((2, 2, 2), 2)):
            for v in itertools.product(range(vals), repeat=int(np.prod(shape))):
                a = np.array(v).reshape(shape) - 1
                out = center_data(a)
                close(out, centred(a), f"center_data({a.tolist()})", 0)
                sigs.add(digest(out))
                k += 1
        return dict(evals=k, sigs=sigs)

    def run_scalar(self, case):
        from pyotf.utils import cart2pol, psqrt

        k = 0
        vals = [-1e9, -4, -1, -1e-300, -0.0, 0.0, 1e-300, 0.25, 1, 2, 3, 4, 1e9]
        for shape in ((13,), (13, 1), (1, 13)):
            a = np.array(vals).reshape(shape)
            ref = np.array([math.sqrt(v) if v > 0 else 0.0 for v in vals]).reshape(shape)
            close(psqrt(a), ref, "psqrt", 1e-15)
            k += 1
        for dt in (int, np.int16, np.uint8, np.uint16):
            a = np.arange(-5 if np.dtype(dt).kind == "i" else 0, 60).astype(dt)
            # numpy takes square roots of 8-bit integers in half precision
            close(psqrt(a), np.array([math.sqrt(max(0, int(v))) for v in a]), f"psqrt {np.dtype(dt)}",
                  1e-3 if a.itemsize == 1 else 1e-6)
            k += 1
        for v in vals:
            require(abs(float(psqrt(v)) - (math.sqrt(v) if v > 0 else 0)) <= 1e-12 * max(1, abs(v)), f"psqrt({v})")
            k += 1
        grid = [-3.0, -1.0, -0.5, -1e-12, 0.0, 1e-12, 0.25, 1.0, 2.5, 1e6]
        for y, x in itertools.product(grid, repeat=2):
            for yy, xx in ((y, x), (np.array([y]), np.array([x])), (np.array([[y], [1.0]]), np.array([[x], [2.0]]))):
                r, t = cart2pol(yy, xx)
                close(r * np.sin(t), np.asarray(yy), f"cart2pol({y}, {x}) y", 1e-12, scale=math.hypot(y, x) + (2 if np.ndim(yy) == 2 else 1e-300))
                close(r * np.cos(t), np.asarray(xx), f"cart2pol({y}, {x}) x", 1e-12, scale=math.hypot(y, x) + (2 if np.ndim(yy) == 2 else 1e-300))
                require(np.all(np.asarray(r) >= 0) and np.all(np.abs(t) <= np.pi), f"cart2pol({y}, {x}) range")
                k += 1
        return dict(evals=k)


CHECK = C()
