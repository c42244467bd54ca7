"""C08: histories on an original and the objects derived from it; each behaves as if the other did not exist."""
import copy
import itertools
import pickle

import numpy as np

from mc import objs
from mc import micro
from mc.checks import c04, c22
from mc.core import ORACLE, Check, close, require

COEFS = ((0.0, 0.1, 0.0, 0.2, -0.1), (0.2, 0.0, -0.4, 0.3, 0.5))
NAMED = (None, tuple(0.8 if i == 5 else 0.0 for i in range(15)))  # vertical astigmatism
DERIVE = {"h": ("ab", "abp", "named", "none", "copy", "deepcopy", "pickle", "ab,named", "named,none", "copy,ab",
                "abp,copy", "ab,pickle"),
          "s": ("copy", "deepcopy", "pickle", "copy,deepcopy")}
# aberrations that change nothing, and the other way to give names
FURTHER = ("zero", "named0", "dict", "dict0", "dict{}", "dict{},named", "ab,dict{}", "zero,ab")


def derive(m, how):
    from pyotf.otf import apply_aberration, apply_named_aberration, apply_named_aberrations

    if "," in how:
        for h in how.split(","):
            m = derive(m, h)
        return m
    if how == "ab":
        return apply_aberration(m, np.array(COEFS[0]), np.array(COEFS[1]))
    if how == "abp":
        return apply_aberration(m, None, np.array(COEFS[1]))
    if how == "named":
        return apply_named_aberration(m, "vertical astigmatism", 0.8)
    if how == "zero":
        return apply_aberration(m, np.zeros(3), np.zeros(3))
    if how == "named0":
        return apply_named_aberration(m, "vertical astigmatism", 0)
    if how.startswith("dict"):
        return apply_named_aberrations(m, {"dict": {"vertical astigmatism": 0.8}, "dict{}": {},
                                           "dict0": {"tip": 0, "vertical coma": 0.0}}[how])
    if how == "none":
        return apply_aberration(m, None, None)
    if how == "pickle":
        return pickle.loads(pickle.dumps(m))
    return copy.copy(m) if how == "copy" else copy.deepcopy(m)


def derived_state(st, how):
    if "," in how:
        for h in how.split(","):
            st = derived_state(st, h)
        return st
    d = copy.deepcopy(st)
    if how == "ab":
        d.pups = {COEFS}
    elif how == "abp":
        d.pups = {(None, COEFS[1])}
    elif how in ("named", "dict"):
        d.pups = {NAMED}
    elif how in ("zero", "named0", "dict0", "dict{}"):
        d.pups = {(None, (0.0,) * 15)}
    elif how == "none":
        d.pups = set(st.pups) | {None}
    return d


def alphabet(kind):
    v = c04.VALUES[kind]
    ops = [("read", "PSFi"), ("read", "OTFa"), ("set", "wl", v["wl"][1]), ("set", "zsize", v["zsize"][1]),
           ("set", "vec_corr", "x"), ("bad", "size", 4.5)]
    if kind == "h":
        # planes of as many and of the kind the model has, and others
        return ops + [("zrange", c04.ZRANGES[0]), ("zrange", (-95, 5, 96)), ("set", "zres", 95), ("pupil", 1),
                      ("set", "size", v["size"][1])]
    return ops + [("set", "dual", True), ("set", "zres", v["zres"][1])]


# ---- confocal

CONF = dict(na=1.2, ni=1.33, wl=520, size=5, pixel_size=170, oversample_factor=1, zres=100, zsize=4)


def conf_make(model, wl_exc=488):
    from pyotf.microscope import ConfocalMicroscope

    return ConfocalMicroscope(model=model, wl_exc=wl_exc, pinhole_size=1, **CONF)


CONF_OPS = [("read", "mic", "PSF"), ("read", "model", "OTFi"), ("read", "model_exc", "PSFi"),
            ("set", "mic", "wl_exc", 460.0), ("set", "mic", "pinhole_size", 3), ("set", "model", "vec_corr", "x"),
            ("set", "model_exc", "condition", "none"), ("set", "model", "zsize", 3), ("set", "model_exc", "size", 6),
            ("set", "model", "wl", 540.0)]


def conf_do(m, op):
    o = m if op[1] == "mic" else getattr(m, op[1])
    if op[0] == "read":
        try:
            getattr(o, op[2])
        except ValueError:
            if op[1] != "mic":
                raise  # a microscope whose two models were given different shapes has no PSF
    else:
        setattr(o, op[2], op[3])


def conf_expect(model, wl_exc, which, ops):
    m = conf_make(model, wl_exc)
    for op in ops:
        conf_do(m, op)
    return [np.array(getattr(getattr(m, which), a)) for a in objs.ARRAYS]


# ---- retrieval

PR_OPS = [("gen", {}), ("gen", dict(size=4)), ("gen", dict(size=9, zsize=2)), ("gen", dict(zrange=(-310, 10, 320))),
          ("fit", 6), ("zd", dict(size=8)), ("read", "OTFa"), ("read", "PSFi"), ("zrange", (-50.0, 75.0, 300.0)),
          ("zsize", 4), ("wl", 540.0), ("write", None)]


def pr_make():
    from pyotf.otf import HanserPSF, apply_aberration
    from pyotf.phaseretrieval import retrieve_phase

    m = apply_aberration(HanserPSF(520, 1.2, 1.33, 100, 7, zsize=3, zres=300), None, np.array([0, .2, -.3, .1, .6]))
    return retrieve_phase(m.PSFi + 1e-4, dict(wl=520, na=1.2, ni=1.33, res=100, zres=300), 3, 0, 0)


def pr_do(r, op, held, fitted):
    """fitted: a list that is non-empty once a decomposition is attached."""
    t, a = op
    if t == "gen":
        held.append(r.generate_psf(**dict(a)))
    elif t == "fit":
        r.fit_to_zernikes(a)
        fitted.append(a)
    elif t == "zd":
        if not fitted:
            r.fit_to_zernikes(5)
            fitted.append(5)
        held.append(r.generate_zd_psf(**dict(a)))
    elif t == "read":
        getattr(r.model, a)
    elif t == "write":  # the caller edits a PSF it was given
        if held:
            held[-1] = None
            p = r.generate_psf()
            p *= 0
            p -= 7
    else:
        setattr(r.model, t, a)


MODEL_OPS = ("zrange", "zsize", "wl")


def pr_expect(ops):
    """Model arrays, and the last generated PSF, after the given operations."""
    r, held, fitted = pr_make(), [], []
    for op in ops:
        pr_do(r, op, held, fitted)
    out = [np.array(getattr(r.model, a)) for a in objs.ARRAYS]
    return out, (np.array(held[-1]) if held and held[-1] is not None else None)


class C(Check):
    id = "C08"
    level = "model_checking"
    chunk = 1
    rule = ("Every history: up to one operation on the original, each way of deriving, then every sequence of "
            "operations on either object to the depth, both read back in either order; the same for the two models "
            "of a confocal microscope, for a retrieval result, its model and the PSFs generated from it, and for deep "
            "and pickled copies of microscopes and results.")
    assumptions = ["in-place modification of arrays obtained from an object is not part of a history",
                   "values compared to 1e-9 of the largest modulus with an undisturbed process"]

    def cases(self, tier):
        th = tier == "thorough"
        for kind in "hs":
            n = len(alphabet(kind))
            for how in DERIVE[kind]:
                for pre in range(-1, n):
                    for first in range(2 * n) if th else (None,):
                        yield dict(t="model", kind=kind, how=how, pre=pre, first=first, depth=3 if th else 2)
        for how in FURTHER:
            for pre in range(-1, len(alphabet("h"))):
                yield dict(t="model", kind="h", how=how, pre=pre, first=None, depth=2 if th else 1)
        for model in ("hanser", "sheppard"):
            for first in range(len(CONF_OPS)):
                yield dict(t="conf", model=model, first=first, depth=4 if th else 3, exc=488)
                # equal to the emission wavelength
                yield dict(t="conf", model=model, first=first, depth=3 if th else 2, exc=520)
        for kind in micro.TYPES:
            for bk in c22.BASES:
                for how in ("deepcopy", "pickle"):
                    for pre in range(-1, len(c22.alphabet(kind, bk, True))):
                        yield dict(t="mic", kind=kind, bk=bk, how=how, pre=pre, depth=3 if th else 2)
        for how in ("deepcopy", "pickle"):
            for first in range(len(PR_OPS)):
                yield dict(t="prcopy", how=how, first=first, depth=3 if th else 2)
        for first in range(len(PR_OPS)):
            yield dict(t="pr", first=first, depth=4 if th else 3)

    def run(self, case):
        return getattr(self, "run_" + case["t"])(case)

    def run_model(self, case):
        kind, how = case["kind"], case["how"]
        ops = alphabet(kind)
        both = [(w, op) for w in (0, 1) for op in ops]
        states, runs, tr = set(), 0, 0
        firsts = both if case["first"] is None else [both[case["first"]]]
        for f in firsts:
            for rest in itertools.product(both, repeat=case["depth"] - 1):
                seq = (f,) + rest
                m = objs.build(kind, {k: v[0] for k, v in c04.VALUES[kind].items()})
                st = c04.State(kind)
                if case["pre"] >= 0:
                    c04.apply(m, st, ops[case["pre"]])
                    st.step(ops[case["pre"]])
                d = derive(m, how)
                require(d is not m and type(d) is type(m), f"derived by {how}: {type(d)}, same object: {d is m}")
                pair = [(m, st), (d, derived_state(st, how))]
                for w, op in seq:
                    o, s = pair[w]
                    c04.apply(o, s, op)
                    s.step(op)
                    states.add(hash((pair[0][1].key(), pair[1][1].key())))
                what = f"{ops[case['pre']] if case['pre'] >= 0 else ''}, derived by {how}, then {seq}: "
                for w in ((0, 1), (1, 0))[runs % 2]:
                    c04.verify(*pair[w], c04.ORDERS[(runs // 2) % 2], what + ("original ", "derived ")[w])
                runs += 1
                tr += len(seq) + 1
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=states)

    def run_conf(self, case):
        runs, tr, states = 0, 0, set()
        for n in range(case["depth"]):
            for rest in itertools.product(CONF_OPS, repeat=n):
                seq = (CONF_OPS[case["first"]],) + rest
                m = conf_make(case["model"], case["exc"])
                for op in seq:
                    conf_do(m, op)
                    tr += 1
                for which in (("model", "model_exc"), ("model_exc", "model"))[runs % 2]:
                    # only what concerns this model: its own assignments, and wl_exc for the excitation
                    own = tuple(op for op in seq if op[0] == "set" and
                                (op[1] == which or (op[2] == "wl_exc" and which == "model_exc")))
                    exp = ORACLE(conf_expect, case["model"], case["exc"], which, own)
                    for a, e in zip(objs.ARRAYS, exp):
                        close(getattr(getattr(m, which), a), e, f"confocal {seq}: {which}.{a}")
                    states.add(hash((case["exc"], which, own)))
                runs += 1
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=states)

    def run_mic(self, case):
        """A microscope and its deep copy, each with its own later settings."""
        kind, bk = case["kind"], case["bk"]
        al = c22.alphabet(kind, bk, True)
        ops = [o for o in al if o[0] != "bad"]
        if not case["depth"] > 2:  # one value per setting
            ops = [o for i, o in enumerate(ops) if o[0] == "read" or o[1] not in [q[1] for q in ops[i + 1:]]]
        both = [(w, op) for w in (0, 1) for op in ops]
        states, runs, tr = set(), 0, 0

        def do(m, s, op):
            if op[0] == "read":
                getattr(m, op[1])
            elif op[0] == "set":
                setattr(m, op[1], op[2])
                if op[1] != "oversample_factor":
                    s[op[1]] = op[2]
            else:
                try:
                    setattr(m, op[1], op[2])
                except Exception:  # noqa
                    pass

        for seq in itertools.product(both, repeat=case["depth"]):
            s = c22.initial(kind)
            m = c22.construct(kind, bk, s)
            if case["pre"] >= 0:
                do(m, s, al[case["pre"]])
            d = copy.deepcopy(m) if case["how"] == "deepcopy" else pickle.loads(pickle.dumps(m))
            pair = [(m, s), (d, dict(s))]
            for w, op in seq:
                do(*pair[w], op)
            what = f"{kind} {bk} {al[case['pre']] if case['pre'] >= 0 else ''} {case['how']} then {seq}: "
            for w in ((0, 1), (1, 0))[runs % 2]:
                c22.CHECK.verify(pair[w][0], kind, bk, pair[w][1], runs, what + ("original ", "copy ")[w])
            states.add((kind, bk, c22.freeze(pair[0][1]), c22.freeze(pair[1][1])))
            runs += 1
            tr += len(seq) + 1
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=states)

    def run_prcopy(self, case):
        """A retrieval result and its copy."""
        runs, tr, states = 0, 0, set()
        ops = [o for o in PR_OPS if o[0] != "write"]
        if case["first"] >= len(ops):
            return dict(evals=0)
        both = [(w, o) for w in (0, 1) for o in ops]
        for rest in itertools.product(both, repeat=case["depth"]):
            r, held, fitted = pr_make(), [], []
            pr_do(r, ops[case["first"]], held, fitted)
            d = copy.deepcopy(r) if case["how"] == "deepcopy" else pickle.loads(pickle.dumps(r))
            pair = [(r, held, fitted, [ops[case["first"]]]), (d, [], list(fitted), [ops[case["first"]]])]
            for w, op in rest:
                o = pair[w]
                pr_do(o[0], op, o[1], o[2])
                o[3].append(op)
            for w in ((0, 1), (1, 0))[runs % 2]:
                o = pair[w]
                exp, last = ORACLE(pr_expect, tuple(o[3]))
                for a, e in zip(objs.ARRAYS, exp):
                    close(getattr(o[0].model, a), e, f"retrieval {case['how']} {rest}: {'original copy'.split()[w]} {a}")
                if o[1] and last is not None and o[3][-1][0] in ("gen", "zd"):
                    close(o[1][-1], last, f"retrieval {case['how']} {rest}: last PSF of the {'original copy'.split()[w]}")
                states.add(hash((w, tuple(o[3]).__repr__())))
            runs += 1
            tr += len(rest) + 1
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=states)

    def run_pr(self, case):
        runs, tr, states = 0, 0, set()
        for n in range(case["depth"]):
            for rest in itertools.product(PR_OPS, repeat=n):
                seq = (PR_OPS[case["first"]],) + rest
                r, held, fitted = pr_make(), [], []
                for op in seq:
                    pr_do(r, op, held, fitted)
                    tr += 1
                own = tuple(op for op in seq if op[0] in MODEL_OPS)
                exp, _ = ORACLE(pr_expect, own)
                for a, e in zip(objs.ARRAYS, exp):
                    close(getattr(r.model, a), e, f"retrieval {seq}: model.{a}")
                # every PSF handed out, read at the end, is what it was when generated
                k = 0
                for i, op in enumerate(seq):
                    if op[0] in ("gen", "zd"):
                        if held[k] is not None:
                            # its own history: model assignments, and the decomposition it uses
                            fits = [q for q, o in enumerate(seq[:i]) if o[0] in ("fit", "zd")]
                            last = [q for q in fits if seq[q][0] == "fit"][-1:] or fits[:1]
                            prev = tuple(("fit", seq[q][1] if seq[q][0] == "fit" else 5) if q in last else seq[q]
                                         for q in range(i)
                                         if seq[q][0] in MODEL_OPS or (q in last and op[0] == "zd"))
                            _, e = ORACLE(pr_expect, prev + (op,))
                            close(held[k], e, f"retrieval {seq}: PSF {k} handed out")
                        k += 1
                runs += 1
                states.add(hash(own))
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=states)


CHECK = C()
