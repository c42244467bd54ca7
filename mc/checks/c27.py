"""C27: representations name the class and state every current parameter, after any history."""
import ast
import itertools

import numpy as np

from mc import micro, objs
from mc.checks import c04, c22
from mc.core import Check, Violation, require


def parse(text, what):
    """(class name, {name: value}) of a representation that reads as a constructor call."""
    try:
        call = ast.parse(text, mode="eval").body
    except SyntaxError as e:
        raise Violation(f"{what}: representation does not read as a call: {text!r} ({e})")
    require(isinstance(call, ast.Call) and isinstance(call.func, (ast.Name, ast.Attribute)),
            f"{what}: representation is not a call: {text!r}")
    name = call.func.id if isinstance(call.func, ast.Name) else call.func.attr
    require(not call.args, f"{what}: unnamed values in {text!r}")

    def value(node):
        if isinstance(node, ast.Call):  # array([...]), np.float64(...)
            return np.array(value(node.args[0])) if node.args else None
        return ast.literal_eval(node)

    try:
        d = {k.arg: value(k.value) for k in call.keywords}
    except ValueError as e:
        raise Violation(f"{what}: a value cannot be read in {text!r}: {e}")
    return name, d


def same(got, want, tol=0.0):
    if isinstance(want, (str, bool)) or want is None:
        return type(got) is type(want) and got == want
    g, w = np.asarray(got), np.asarray(want)
    if g.dtype.kind not in "iuf" or g.shape != w.shape:
        return False
    return bool(np.all(np.abs(g - w) <= tol * max(np.abs(w).max(), 1e-300))) if w.size else True


# numbers of every length
UNITS = (1, 1.0, 1e-3, 1e-9, 1e9, 0.123456789012345, 1 / 3)


class C(Check):
    id = "C27"
    level = "model_checking"
    chunk = 4
    rule = ("Every history of parameter assignments (accepted, repeated, rejected), pupil applications and reads to "
            "the depth for both models, and of setting assignments and reads for every microscope type and base, "
            "then repr() parsed as a constructor call and compared with the reference state.")
    assumptions = ["planes are compared to the print precision of numpy arrays; representations are read as Python "
                   "calls with keyword arguments", "assignments of the oversampling factor are C22's finding"]

    def cases(self, tier):
        th = tier == "thorough"
        for kind in "hs":
            n = len(c04.full_alphabet(kind))
            for first in range(n):
                yield dict(t="model", kind=kind, alphabet="full", first=first, depth=3 if th else 2)
            n = len(c04.core_alphabet(kind))
            for first in range(n):
                yield dict(t="model", kind=kind, alphabet="core", first=first, depth=5 if th else 4)
            for name in c04.MORE:
                if (name != "dual" or kind == "s") and (name != "zrange" or kind == "h"):
                    yield dict(t="values", kind=kind, name=name)
            for unit in UNITS:
                yield dict(t="forms", kind=kind, unit=unit)
        for kind in micro.TYPES:
            for unit in UNITS:
                yield dict(t="micforms", kind=kind, unit=unit)
            for bk in c22.BASES:
                for first in range(len(c22.alphabet(kind, bk, not th))):
                    yield dict(t="mic", kind=kind, bk=bk, first=first, depth=3 if th or "SIM" not in kind else 2,
                               small=not th)
                yield dict(t="micvalues", kind=kind, bk=bk)
            for model in ("hanser", "SHEPPARD", "Hanser"):
                for f in (1, 3, 5):
                    for size in (4, 5):
                        yield dict(t="micbase", kind=kind, model=model, f=f, size=size)

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def model_ok(self, m, st, what):
        text = repr(m)
        name, d = parse(text, what)
        require(name == {"h": "HanserPSF", "s": "SheppardPSF"}[st.kind], f"{what}: class {name}")
        require(set(st.p) <= set(d), f"{what}: {set(st.p) - set(d)} missing in {text}")
        for k, v in st.p.items():
            require(same(d[k], v), f"{what}: states {k}={d[k]!r}, is {v!r}")
        if st.kind == "h":
            z = np.array(st.planes())
            require("zrange" in d and same(np.atleast_1d(d["zrange"]), z, 1e-7),
                    f"{what}: states zrange={d.get('zrange')!r}, is {z}")
            for k in set(d) - set(st.p) - {"zrange"}:
                require(same(d[k], getattr(m, k)), f"{what}: states {k}={d[k]!r}, is {getattr(m, k)!r}")
        require(str(m) == text and repr(m) == text, f"{what}: representation changes between calls")
        return text

    def run_model(self, case):
        kind = case["kind"]
        ops = c04.ALPHABETS[case["alphabet"]](kind)
        runs, tr, states, sigs = 0, 0, set(), set()
        for n in range(case["depth"]):
            for rest in itertools.product(ops, repeat=n):
                seq = (ops[case["first"]],) + rest
                m = objs.build(kind, {k: v[0] for k, v in c04.VALUES[kind].items()})
                st = c04.State(kind)
                for op in seq:
                    c04.apply(m, st, op)
                    st.step(op)
                states.add(hash(st.key()))
                sigs.add(self.model_ok(m, st, f"{seq}"))
                runs += 1
                tr += len(seq)
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=sigs)

    def run_forms(self, case):
        """Constructions of every size, option and length of number."""
        kind, u = case["kind"], case["unit"]
        runs, sigs = 0, set()
        for size, zsize in itertools.product((1, 2, 3, 8, 65, 300), (1, 2, 5, 64, 100)):
            for i, (vec, cond) in enumerate(itertools.product(("none", "x", "y", "z", "total"), ("none", "sine", "herschel"))):
                p = dict(wl=520 * u, na=(1.2, 1, 0.123456789)[i % 3], ni=(1.33, 1.5, 1.3312345678)[i // 3 % 3],
                         res=(60, 61.25)[i % 2] * u, size=size, zres=(90, 111.1111111111111)[i // 2 % 2] * u, zsize=zsize,
                         vec_corr=vec, condition=cond)
                m = objs.build(kind, dict(p, dual=i % 2 == 0) if kind == "s" else p)
                st = c04.State(kind)
                st.p = dict(p, dual=i % 2 == 0) if kind == "s" else dict(p)
                sigs.add(self.model_ok(m, st, f"{p}"))
                runs += 1
        return dict(evals=runs, states=sigs, transitions=runs, traces=runs, sigs=sigs)

    def run_micforms(self, case):
        kind, u = case["kind"], case["unit"]
        runs, sigs = 0, set()
        for size, f in itertools.product((1, 2, 5, 64), (1, 3, 7)):
            for i, model in enumerate(("hanser", "sheppard", "Hanser")):
                for extra in ({}, dict(vec_corr="y"), dict(condition="herschel", zres=55.25 * u), dict(zsize=1, zres=u * 70),
                              dict(zsize=6, vec_corr="total", condition="none"), dict(vec_corr="none", condition="sine"),
                              dict(zrange=[-70.5 * u, 0 * u, 100 * u]) if i != 1 else dict(dual=False),
                              dict(zrange=[50 * u], zsize=4) if i != 1 else dict(dual=True, zsize=3)):
                    base = dict(na=(1.2, 1)[i % 2], ni=1.3312345678, wl=520 * u, model=model, size=size,
                                pixel_size=(60, 61.25, 71.123456789)[i] * u, oversample_factor=f, **extra)
                    s = micro.own(kind)
                    if "wl_exc" in s:
                        s["wl_exc"] = (488, 460.123456789)[runs % 2] * u
                    if "pinhole_size" in s:
                        s["pinhole_size"] = (0, 1, 0.25, 1.23456789)[runs % 4]
                    if "wiener" in s:
                        s["wiener"] = (None, 0, 0.1, 1e-7, 2)[runs % 5]
                        s["na_exc"] = (1, 0, 0.5, 1.23456789)[runs % 4]
                        s["dc_suppress"] = runs % 2 == 0
                    if "orientations" in s:
                        s["orientations"] = ((), (0,), (0.1, 0.123456789012345), [1, 2.5], (0.5, 0.5))[runs % 5]
                    m = micro.make(kind, base, s)
                    sigs.add(self.mic_ok(m, kind, base, s, f"{kind} {base} {s}"))
                    runs += 1
        return dict(evals=runs, states=sigs, transitions=runs, traces=runs, sigs=sigs)

    def run_values(self, case):
        kind, name = case["kind"], case["name"]
        runs, states, sigs = 0, set(), set()
        for vs in itertools.product(c04.MORE[name], repeat=2):
            for read in ((), objs.ARRAYS):
                m = objs.build(kind, {k: v[0] for k, v in c04.VALUES[kind].items()})
                st = c04.State(kind)
                for v in vs:
                    for op in [("zrange", v) if name == "zrange" else ("set", name, v)] + [("read", a) for a in read]:
                        c04.apply(m, st, op)
                        st.step(op)
                states.add(hash(st.key()))
                sigs.add(self.model_ok(m, st, f"{name} {vs}"))
                runs += 1
        return dict(evals=runs, states=states, transitions=2 * runs, traces=runs, sigs=sigs)

    def mic_ok(self, m, kind, base, s, what):
        text = repr(m)
        name, d = parse(text, what)
        require(name == kind, f"{what}: class {name}")
        want = dict(zsize=base["size"], zres=base["pixel_size"])
        want.update(base)
        want["model"] = base["model"].lower()
        want.update(s)
        for k, v in want.items():
            require(k in d, f"{what}: {k} missing in {text}")
            got = d[k].lower() if k == "model" and isinstance(d[k], str) else d[k]
            require(same(got, v), f"{what}: states {k}={d[k]!r}, is {v!r}")
        require(str(m) == text and repr(m) == text, f"{what}: representation changes between calls")
        return text

    def run_mic(self, case):
        kind, bk = case["kind"], case["bk"]
        al = c22.alphabet(kind, bk, case["small"])
        runs, tr, states, sigs = 0, 0, set(), set()
        for n in range(case["depth"]):
            for rest in itertools.product(al, repeat=n):
                seq = (al[case["first"]],) + rest
                s = c22.initial(kind)
                m = c22.construct(kind, bk, s)
                for op in seq:
                    if op[0] == "read":
                        getattr(m, op[1])
                    elif op[0] == "set":
                        setattr(m, op[1], op[2])
                        if op[1] != "oversample_factor":
                            s[op[1]] = op[2]
                    else:
                        try:
                            setattr(m, op[1], op[2])
                        except Exception:  # noqa
                            pass
                states.add((kind, bk, c22.freeze(s)))
                sigs.add(self.mic_ok(m, kind, c22.BASES[bk], s, f"{kind} {bk} {seq}"))
                runs += 1
                tr += len(seq)
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=sigs)

    def run_micvalues(self, case):
        kind, bk = case["kind"], case["bk"]
        runs, sigs, states = 0, set(), set()
        for name, _ in c22.SETTINGS[kind]:
            for v in c22.MORE.get(name, ()):
                s = c22.initial(kind)
                m = c22.construct(kind, bk, s)
                m.PSF
                setattr(m, name, v)
                s[name] = v
                states.add((kind, bk, c22.freeze(s)))
                sigs.add(self.mic_ok(m, kind, c22.BASES[bk], s, f"{kind} {bk} {name}={v!r}"))
                runs += 1
        return dict(evals=runs, states=states, transitions=runs, traces=runs, sigs=sigs)

    def run_micbase(self, case):
        kind, f = case["kind"], case["f"]
        runs, sigs, states = 0, set(), set()
        for extra in ({}, dict(vec_corr="total"), dict(condition="none", zres=120.5), dict(zsize=7),
                      dict(vec_corr="x", condition="herschel", zsize=6, zres=100)):
            for px in (90, 81.5):
                base = dict(micro.OPT, model=case["model"], size=case["size"], pixel_size=px, oversample_factor=f,
                            **extra)
                s = micro.own(kind)
                m = micro.make(kind, base, s)
                texts = [self.mic_ok(m, kind, base, s, f"{kind} {base}")]
                m.PSF
                texts.append(self.mic_ok(m, kind, base, s, f"{kind} {base} after reading PSF"))
                require(texts[0] == texts[1], f"{kind} {base}: representation changed by reading PSF")
                sigs.add(texts[0])
                states.add(texts[0])
                runs += 2
        return dict(evals=runs, states=states, transitions=runs, traces=runs, sigs=sigs)


CHECK = C()
