"""C09: zernike against exact rational radial polynomials, every call form, orthonormality."""
import itertools
import math

import numpy as np

from mc import refs
from mc.core import Check, close, digest, raises, require

# radii, including the edge, its neighbours, and outside
R = np.array([0.0, 1e-9, 0.05, 0.125, 0.25, 1 / 3, 0.5, 0.6180339887, 0.75, 0.9, 0.97, 0.999999, np.nextafter(1, 0), 1.0,
              np.nextafter(1, 2), 1.0000001, 1.5, 3.0, 1e6])
T = np.array([0.0, 0.3, np.pi / 4, 1.1, np.pi / 2, 2.2, 3.0, np.pi, -0.7, -np.pi / 2, -2.5, 5.9, 12.0])
INSIDE = R <= 1


class C(Check):
    id = "C09"
    level = "exploration"
    chunk = 1
    rule = ("Every degree pair 0 <= |m| <= n to the bound, n-m odd included, on a grid of radii (edge, neighbours of "
            "the edge, outside) and angles, with and without norm, in every call form and coordinate shape; the Gram "
            "matrix of all 120 Noll modes by exact quadrature; non-trivial: distinct values on the grid.")
    assumptions = ["reference radial values are exact rationals rounded once; tolerance 1e-10 of the mode's maximum "
                   "up to n = 20, 1e-8 above"]

    def cases(self, tier):
        degrees = range(101) if tier == "thorough" else list(range(46)) + [50, 60, 61, 80, 100]
        for n in degrees:
            yield dict(t="degree", n=n)
        for j0 in range(1, 121, 10):
            yield dict(t="noll", j0=j0)
        yield dict(t="gram")
        for form in range(4):
            yield dict(t="shapes", form=form)
        for i in range(8):
            yield dict(t="large", i=i)
        yield dict(t="reject")

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def run_degree(self, case):
        from pyotf.zernike import zernike

        n = case["n"]
        rr, tt = np.meshgrid(R, T, indexing="ij")
        sigs, k = set(), 0
        for m in range(-n, n + 1):
            odd = (n - m) % 2
            rad = None if odd else refs.radial_arr(n, m, R)
            for norm in (True, False, None):
                kw = {} if norm is None else dict(norm=norm)
                got = zernike(rr, tt, n, m, **kw)
                require(not np.any(got[~INSIDE]), f"Z({n},{m}) nonzero outside the unit disk")
                if odd:
                    require(got.shape == rr.shape and not np.any(got), f"Z({n},{m}) nonzero for odd n-m")
                else:
                    ang = np.sin(-m * T) if m < 0 else np.cos(m * T)
                    ref = (-1) ** abs(m) * rad[:, None] * ang[None]
                    if norm is not False:
                        ref = ref * math.sqrt((1 if m == 0 else 2) * (n + 1))
                    close(got, ref, f"Z({n},{m}) norm={norm}", 1e-10 if n <= 20 else 1e-8)
                    sigs.add(digest(got))
                    if norm is False:
                        edge = zernike(np.ones(1), np.array([0.0 if m >= 0 else np.pi / 2 / -m]), n, m, norm=False)
                        require(abs(abs(float(edge)) - 1) < 1e-9, f"|Z({n},{m})| at the edge is {edge}")
                k += 1
        return dict(evals=k, sigs=sigs)

    def run_noll(self, case):
        from pyotf.zernike import zernike

        rr, tt = np.meshgrid(R, T, indexing="ij")
        sigs, k = set(), 0
        for j in range(case["j0"], case["j0"] + 10):
            n, m = refs.noll(j)
            for norm in (True, False, None):
                kw = {} if norm is None else dict(norm=norm)
                ref = refs.zernike(n, m, rr, tt, norm is not False)
                for name, args in (("j", (j,)), ("[j]", ([j],)), ("(j,)", ((j,),)), ("array", (np.array(j),)),
                                   ("array1", (np.array([j]),)), ("n, m", (n, m)), ("[n], [m]", ([n], [m])),
                                   ("stacked", (np.array([[n], [m]]),)), ("stacked list", ([[n], [m]],))):
                    got = zernike(rr, tt, *args, **kw)
                    close(got, ref, f"zernike by {name}, j={j} norm={norm}", 1e-10)
                    k += 1
                sigs.add(digest(ref))
        return dict(evals=k, sigs=sigs)

    def run_gram(self, case):
        """Exact quadrature: Gauss-Legendre in r^2 (degree to 29), uniform in angle (order to 28)."""
        from pyotf.zernike import zernike

        x, w = np.polynomial.legendre.leggauss(20)
        r = np.sqrt((x + 1) / 2)
        t = 2 * np.pi * np.arange(40) / 40
        rr, tt = np.meshgrid(r, t, indexing="ij")
        z = zernike(rr, tt, np.arange(1, 121)).reshape(120, -1)
        wt = np.repeat(w / 2, 40) / 40
        g = (z * wt) @ z.T
        close(g, np.eye(120), "Gram matrix of modes 1..120", 1e-10)
        u = zernike(rr, tt, np.arange(1, 121), norm=False).reshape(120, -1)
        nm = [refs.noll(j) for j in range(1, 121)]
        close((u * wt) @ u.T, np.diag([1 / ((1 if m == 0 else 2) * (n + 1)) for n, m in nm]),
              "Gram matrix without norm", 1e-10)
        return dict(evals=2 * 120 * 120, sigs=[digest(z), digest(u)])

    def run_shapes(self, case):
        """Coordinate shapes and mode sequences: mode axis first, singleton axes dropped."""
        from pyotf.zernike import zernike

        base_r = np.array([0.0, 0.2, 0.5, 0.8, 1.0, 1.3, 0.33, 0.9, 0.61, 0.05, 0.77, 1.0])
        base_t = np.array([0.1, -1.0, 2.0, 3.1, 0.0, 0.4, -2.2, 1.4, 0.9, -0.3, 2.6, 1.6])
        sigs, k = set(), 0
        shapes = [(), (1,), (2,), (5,), (12,), (1, 1), (1, 4), (4, 1), (2, 3), (3, 4), (4, 3)]
        lists = [[4], [1], [2, 3], [1, 2, 3], [11, 4, 22], list(range(1, 8)), [7, 7], [120, 1, 36], [5, 1, 2, 3, 9]]
        for shape in shapes:
            size = int(np.prod(shape))
            r, t = base_r[:size].reshape(shape), base_t[:size].reshape(shape)
            variants = [(r, t)]
            if shape == ():
                variants += [(float(r), float(t)), (0.5, 1), (1, 0.3), (0, 0), (2, 1)]
            if len(shape) == 1:
                variants += [(r.tolist(), t.tolist()), (tuple(r), tuple(t))]
            if len(shape) == 2:
                variants += [(r.tolist(), t.tolist()), (np.asfortranarray(r), np.asfortranarray(t))]
            variants.append((np.rint(r).astype(int), np.rint(t).astype(int)))
            for rv, tv in variants:
                for js in lists:
                    nm = np.array([refs.noll(j) for j in js]).T
                    ref = np.array([refs.zernike(n, m, np.asarray(rv, float), np.asarray(tv, float))
                                    for n, m in nm.T])
                    form = case["form"]
                    if form == 0:
                        got = zernike(rv, tv, js)
                    elif form == 1:
                        got = zernike(rv, tv, np.array(js))
                    elif form == 2:
                        got = zernike(rv, tv, nm[0].tolist(), nm[1].tolist())
                    else:
                        got = zernike(rv, tv, nm)
                    got = np.asarray(got)
                    require(got.size == ref.size and tuple(s for s in got.shape if s > 1) ==
                            tuple(s for s in ref.shape if s > 1), f"shape {got.shape} for {ref.shape}")
                    close(got.reshape(ref.shape), ref, f"form {form} modes {js} shape {shape}", 1e-10,
                          scale=np.abs(ref).max() or 1)
                    sigs.add(digest(got))
                    k += 1
        return dict(evals=k, sigs=sigs)

    def run_large(self, case):
        """Coordinate arrays of real size: every value is that of its own point."""
        from pyotf.zernike import zernike

        i, sigs, k = case["i"], set(), 0
        shape = ((100,), (1000,), (20000,), (64, 64), (128, 129), (300, 200), (3, 5000), (5000, 2))[i]
        size = int(np.prod(shape))
        at = np.arange(size)
        # radii outside and exactly on the edge included
        r = np.where(at % 17 == 3, 1.0, (at * 0.6180339887 % 1) * 1.3).reshape(shape)
        t = (at * 0.7548776662 % 1 * 13 - 6).reshape(shape)
        for js in ([1], [6], [4, 11, 13], [22, 1, 36, 35], list(range(1, 23)), [119, 120], list(range(1, 121)) if size < 9000 else [66]):
            got = np.asarray(zernike(r, t, js)).reshape((len(js),) + shape)
            for j, z in zip(js, got):
                n, m = refs.noll(j)
                close(z, refs.zernike(n, m, r, t), f"Z{j} on {shape}", 1e-9)
                k += 1
            n, m = refs.noll(js[-1])
            close(zernike(r, t, n, m, norm=False), refs.zernike(n, m, r, t, False), f"Z({n},{m}) on {shape}", 1e-9)
            sigs.add(digest(got))
        return dict(evals=k, sigs=sigs)

    def run_reject(self, case):
        from pyotf.zernike import zernike

        k = 0
        r, t = np.array([0.1, 0.5]), np.array([0.0, 1.0])
        for bad in (-1e-12, -1, -0.5, np.array([0.2, -0.1]), [[0.1, 0.2], [-3, 0.4]]):
            th = np.zeros(np.shape(bad))
            for args in ((1,), ([1, 2],), (2, 0), ([1, 2], [1, 0])):
                raises(ValueError, lambda: zernike(bad, th, *args), f"negative radius {bad!r}")
                k += 1
        for n in range(-2, 8):
            for m in range(-9, 10):
                if n < abs(m):
                    for args in ((n, m), ([n], [m]), ([4, n], [0, m]), (np.array([[2, n], [0, m]]),)):
                        raises(ValueError, lambda: zernike(r, t, *args), f"degrees ({n}, {m})")
                        k += 1
        for j in (0, -1, -120):
            for args in ((j,), ([1, j],), (np.array([j]),)):
                raises(ValueError, lambda: zernike(r, t, *args), f"index {j}")
                k += 1
        for j in (1.0, 2.5, [1.0, 2.0], "1"):
            raises((ValueError, TypeError), lambda: zernike(r, t, j), f"index {j!r}")
            k += 1
        r3 = np.full((2, 2, 2), 0.3)
        for args in ((1,), ([1, 2],), (2, 0)):
            raises(ValueError, lambda: zernike(r3, r3, *args), "3-D coordinates")
            k += 1
        one = np.ones((1, 2, 2), int)
        raises(ValueError, lambda: zernike(r, t, one), "3-D indices")
        raises(ValueError, lambda: zernike(r, t, [[2, 2], [4, 4]], [[0, 0], [0, 0]]), "2-D degrees")
        raises(ValueError, lambda: zernike(r, t, [2, 4], [0]), "degree shapes differ")
        raises(ValueError, lambda: zernike(r, t, [2, 4, 4], [0, 2]), "degree shapes differ")
        raises(ValueError, lambda: zernike(r, t), "no mode")
        raises(ValueError, lambda: zernike(r, t, 1, 1, 1), "three mode arguments")
        return dict(evals=k + 6)


CHECK = C()
