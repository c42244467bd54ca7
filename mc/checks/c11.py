"""C11: easy_fft/easy_ifft against explicit centred DFT matrices on a complete basis."""
import itertools

import numpy as np

from mc import refs
from mc.core import Check, close, digest, require


def axes_sets(ndim, orders):
    out = [None]
    for r in range(1, ndim + 1):
        for c in itertools.combinations(range(ndim), r):
            out.append(c)
            out.append(tuple(a - ndim for a in c))
            if orders:
                out += [p for p in itertools.permutations(c) if p != c]
                out.append(list(c))
    return out


class C(Check):
    id = "C11"
    level = "exploration"
    chunk = 4
    rule = ("Every shape to the bound in 1-4 dimensions x every axes subset (None, negative, permuted) x every delta "
            "of the basis, both functions and both compositions; non-trivial: distinct transforms.")
    assumptions = ["linearity is checked on a full combination of the basis; 1e-10 of the largest modulus"]

    def cases(self, tier):
        th = tier == "thorough"
        for n in range(1, 130 if th else 66):
            yield dict(shape=(n,))
        for s in itertools.product(range(1, 13 if th else 8), repeat=2):
            yield dict(shape=s)
        for s in itertools.product(range(1, 7 if th else 5), repeat=3):
            yield dict(shape=s)
        for s in ((1, 2, 3, 4), (2, 3, 2, 3), (3, 1, 4, 5), (6, 2, 3, 3), (1, 5, 4, 4)):
            yield dict(shape=s)
        for s in ((5, 6, 7), (8, 5, 5), (3, 32, 33)):
            yield dict(shape=s, sparse=True)
        for s in ((100,), (127,), (128,), (129,), (200,), (243,), (256,), (257,), (500,), (512,), (1000,), (1025,), (64, 3),
                  (3, 65), (100, 5), (2, 128), (96, 97), (128, 128), (2, 64, 65), (70, 4, 5), (17, 16, 15), (33, 1, 32)):
            yield dict(shape=s, sparse=True, few=True)
        for s in ((64, 64, 64), (1 << 18,), (512, 513), (100, 101, 60), (1050, 1024)) + (((128, 128, 128),) if th else ()):
            yield dict(shape=s, big=True)

    def run_big(self, shape):
        """Sums of outer products, whose transforms are outer products of transforms."""
        from pyotf.utils import easy_fft, easy_ifft

        k, sigs = 0, set()
        nd = len(shape)
        for axes in axes_sets(nd, False)[:: 2 if nd > 1 else 1]:
            ax = range(nd) if axes is None else [a % nd for a in axes]
            for real in (True, False):
                data = ref = iref = 0
                for t in range(2):
                    vs = []
                    for i, n in enumerate(shape):
                        x = np.arange(n)
                        v = np.cos((1.3 + t) * x + i) + (x == n // 3) + 0.01 * x / n
                        vs.append(v if real else v * np.exp(0.7j * x * x))
                    outs = []
                    for f in (None, np.fft.fft, np.fft.ifft):
                        us = vs
                        if f:  # one axis at a time, the centre moved by indexing
                            us = [np.take(f(np.take(v, (np.arange(len(v)) + len(v) // 2) % len(v))),
                                          (np.arange(len(v)) - len(v) // 2) % len(v)) if i in ax else v
                                  for i, v in enumerate(vs)]
                        o = us[0]
                        for u in us[1:]:
                            o = o[..., None] * u
                        outs.append(o)
                    data, ref, iref = data + outs[0], ref + outs[1], iref + outs[2]
                what = f"{shape} {'real' if real else 'complex'} axes={axes}"
                a, b = easy_fft(data, axes=axes), easy_ifft(data, axes=axes)
                close(a, ref, "easy_fft of " + what, 1e-10)
                close(b, iref, "easy_ifft of " + what, 1e-10)
                close(easy_ifft(a, axes=axes), data, "easy_ifft of easy_fft of " + what, 1e-10)
                close(easy_fft(b, axes=axes), data, "easy_fft of easy_ifft of " + what, 1e-10)
                k += 4
                sigs.add(digest(a.ravel()[:1000]))
        return dict(evals=k, sigs=sigs)

    def run(self, case):
        from pyotf.utils import easy_fft, easy_ifft

        shape = tuple(case["shape"])
        size = int(np.prod(shape))
        if case.get("big"):
            return self.run_big(shape)
        k, sigs = 0, set()
        step = max(1, size // (8 if case.get("few") else 40)) if case.get("sparse") else 1
        for axes in axes_sets(len(shape), size <= 64):
            ax = tuple(range(len(shape))) if axes is None else tuple(axes)
            acc_f = acc_i = 0
            acc = np.zeros(shape, complex)
            for i in range(0, size, step):
                d = np.zeros(size)
                d[i] = 1
                d = d.reshape(shape)
                w = np.sin(i + 1) + 1j * np.cos(3 * i)
                for name, f, g, mat in (("easy_fft", easy_fft, easy_ifft, refs.dft),
                                        ("easy_ifft", easy_ifft, easy_fft, refs.idft)):
                    ref = refs.apply_axes(d, ax, mat)
                    out = f(d) if axes is None else f(d, axes=axes)
                    what = f"{name} axes={axes} delta at {np.unravel_index(i, shape)}"
                    close(out, ref, what, 1e-10)
                    back = g(out) if axes is None else g(out, axes=axes)
                    close(back, d, what + " then its inverse", 1e-10)
                    if name == "easy_fft":
                        acc_f = acc_f + w * ref
                    else:
                        acc_i = acc_i + w * ref
                    k += 2
                if i < 3:
                    di = d.astype(int)
                    close(easy_fft(di, axes=axes), easy_fft(d, axes=axes), f"integers axes={axes}", 1e-10)
                    sigs.add(digest(out))
                acc += w * d
            # the same values in every type and layout
            v = (np.arange(size) * 7919 % 113).reshape(shape) % 101
            rf, ri = refs.apply_axes(v, ax, refs.dft), refs.apply_axes(v, ax, refs.idft)
            for t in (bool, np.uint8, np.int8, np.uint16, np.int64, ">i4", ">f8", ">c16", np.float32, np.complex64, np.float16,
                      np.longdouble, "list"):
                if t == "list":
                    x, f, i2 = v.tolist(), rf, ri
                elif t is bool:
                    x = v > 50
                    f, i2 = refs.apply_axes(x.astype(int), ax, refs.dft), refs.apply_axes(x.astype(int), ax, refs.idft)
                else:
                    x, f, i2 = v.astype(t), rf, ri
                    if k % 2:
                        x = np.asfortranarray(x)
                tol = 1e-5 if t in (np.float32, np.complex64, np.float16) else 1e-10
                name = t if isinstance(t, str) else t.__name__
                close(easy_fft(x, axes=axes), f, f"easy_fft of {name} axes={axes}", tol)
                close(easy_ifft(x, axes=axes), i2, f"easy_ifft of {name} axes={axes}", tol)
                k += 2
            close(easy_fft(acc, axes=axes), acc_f, f"easy_fft of a combination axes={axes}", 1e-10)
            close(easy_ifft(acc, axes=axes), acc_i, f"easy_ifft of a combination axes={axes}", 1e-10)
            close(easy_fft(acc, axes), acc_f, f"easy_fft positional axes={axes}", 1e-10)
            close(easy_ifft(acc, axes), acc_i, f"easy_ifft positional axes={axes}", 1e-10)
            sigs.add(digest(acc_f))
            k += 4
        return dict(evals=k, sigs=sigs)


CHECK = C()
