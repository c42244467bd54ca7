"""C10: Noll index <-> degrees, complete for the 120 supported modes."""
import itertools

import numpy as np

from mc import refs
from mc.core import Check, raises, require

SIGNED = (int, np.int64, np.int32, np.int16, np.int8)


class C(Check):
    id = "C10"
    level = "exploration"
    chunk = 1
    rule = ("All 120 Noll indices, all degree pairs -3 <= n <= 16, -18 <= m <= 18, as scalars, arrays of every shape "
            "to three dimensions and every signed integer type, all ordered pairs of indices in one array, names; "
            "non-trivial: distinct (n, m) pairs.")
    assumptions = ["indices above 120 and unsigned integers are left undefined"]

    def cases(self, tier):
        yield dict(t="scalar")
        yield dict(t="arrays")
        for a in range(1, 121, 12):
            yield dict(t="pairs", a=a, n=12)
        yield dict(t="invalid")
        yield dict(t="names")
        if tier == "thorough":
            for a in range(1, 121):
                yield dict(t="triples", a=a)

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def run_scalar(self, case):
        from pyotf.zernike import degrees2noll, noll2degrees

        seen = {}
        for j in range(1, 121):
            for ty in SIGNED:
                n, m = noll2degrees(ty(j))
                require((int(n), int(m)) == refs.noll(j), f"noll2degrees({ty.__name__}({j})) = {n}, {m}")
                require(np.shape(n) == np.shape(m) == (), f"noll2degrees({j}) shape {np.shape(n)}")
                n0, m0 = refs.noll(j)
                b = degrees2noll(ty(n0), ty(m0))
                require(int(b) == j and np.shape(b) == (), f"degrees2noll({n0}, {m0}) = {b}")
                require(int(degrees2noll(n, m)) == j, f"round trip of {j}")
            seen[(n0, m0)] = j
        require(len(seen) == 120, "not a bijection")
        require(set(seen) == {d for d in refs.degrees(14)}, "degrees not covered")
        # Noll's convention, stated independently of the reference construction
        prev = None
        for j in range(1, 121):
            n, m = (int(v) for v in noll2degrees(j))
            require((n - m) % 2 == 0 and abs(m) <= n, f"{j}: invalid degrees {n}, {m}")
            require(m == 0 or (m > 0) == (j % 2 == 0), f"{j}: sign of m {m}")
            require(prev is None or n > prev[0] or (n == prev[0] and abs(m) >= abs(prev[1])), f"{j}: order")
            prev = (n, m)
        return dict(evals=120 * len(SIGNED), sigs=list(seen))

    def run_arrays(self, case):
        from pyotf.zernike import degrees2noll, noll2degrees

        k = 0
        shapes = [(1,), (120,), (0,), (1, 1), (2, 60), (60, 2), (10, 12), (2, 3, 20), (1, 120), (120, 1), (5, 4, 3, 2)]
        for rev, shape, ty in itertools.product((1, -1, 7), shapes, SIGNED):
            size = int(np.prod(shape))
            js = (np.arange(size) * rev % 120 + 1).astype(ty).reshape(shape)
            for arg in (js, js.tolist(), np.asfortranarray(js)):
                if js.size == 0 and isinstance(arg, list):
                    continue
                n, m = noll2degrees(arg)
                exp = np.array([refs.noll(int(j)) for j in js.ravel()]).reshape(-1, 2)
                require(np.shape(n) == np.shape(m) == shape, f"shape {np.shape(n)} for {shape}")
                require(np.array_equal(np.ravel(n), exp[:, 0]) and np.array_equal(np.ravel(m), exp[:, 1]),
                        f"noll2degrees of {shape} {ty.__name__}")
                n8, m8 = np.asarray(n).astype(ty), np.asarray(m).astype(ty)
                b = degrees2noll(n8, m8)
                require(np.shape(b) == shape and np.array_equal(b, js), f"degrees2noll of {shape} {ty.__name__}")
                k += 1
        return dict(evals=k)

    def run_pairs(self, case):
        from pyotf.zernike import degrees2noll, noll2degrees

        k = 0
        for a in range(case["a"], case["a"] + case["n"]):
            for b in range(1, 121):
                n, m = noll2degrees([a, b])
                e = refs.noll(a), refs.noll(b)
                require([tuple(v) for v in zip(n.tolist(), m.tolist())] == list(e), f"noll2degrees([{a}, {b}])")
                require(degrees2noll(n, m).tolist() == [a, b], f"degrees2noll of {e}")
                k += 1
        return dict(evals=k)

    def run_triples(self, case):
        from pyotf.zernike import degrees2noll, noll2degrees

        b, c = np.meshgrid(np.arange(1, 121), np.arange(1, 121))
        a = np.full_like(b, case["a"])
        n, m = noll2degrees(np.array([a, b, c]))
        tab = np.array([refs.noll(j) for j in range(1, 121)])
        require(np.array_equal(n, tab[np.array([a, b, c]) - 1, 0]), "n of triples")
        require(np.array_equal(m, tab[np.array([a, b, c]) - 1, 1]), "m of triples")
        require(np.array_equal(degrees2noll(n, m), np.array([a, b, c])), "round trip of triples")
        return dict(evals=120 * 120)

    def run_invalid(self, case):
        from pyotf.zernike import degrees2noll, noll2degrees

        k = 0
        for j in range(-130, 1):
            for arg in (j, [j], [1, j], [[j, 5]], np.array([120, j])):
                raises(ValueError, lambda: noll2degrees(arg), f"noll2degrees({arg!r})")
                k += 1
        for j in (1.0, 0.5, [1.0], [1, 2.5], "1", 1j, None, [None], np.array([1.0, 2.0])):
            raises((ValueError, TypeError), lambda: noll2degrees(j), f"noll2degrees({j!r})")
            k += 1
        for n in range(-3, 17):
            for m in range(-18, 19):
                valid = abs(m) <= n and (n - m) % 2 == 0
                if not valid:
                    for a in ((n, m), ([n], [m]), ([2, n], [0, m]), (np.array([[n, 2]]), np.array([[m, 0]]))):
                        raises(ValueError, lambda: degrees2noll(*a), f"degrees2noll{a}")
                        k += 1
        for a in ((2.0, 0), (2, 0.0), (2.5, 0), ([2.0], [0]), ("2", 0), (2, None), (1.5, 1.5)):
            raises((ValueError, TypeError), lambda: degrees2noll(*a), f"degrees2noll{a}")
            k += 1
        return dict(evals=k)

    def run_names(self, case):
        from pyotf.zernike import name2noll, noll2name

        require(len(name2noll) == len(noll2name) == 15, "number of names")
        for name, (n, m) in refs.NAMES.items():
            require(name in name2noll, f"name {name!r} missing")
            j = name2noll[name]
            require(refs.noll(j) == (n, m), f"{name} is index {j}, degrees {refs.noll(j)}, expected {(n, m)}")
            require(noll2name[j] == name, f"noll2name[{j}] = {noll2name[j]!r}")
        require(sorted(noll2name) == list(range(1, 16)), "named indices")
        return dict(evals=30, sigs=list(refs.NAMES))


CHECK = C()
