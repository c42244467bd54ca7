"""C22: setting histories on real microscopes; PSF and OTF always those of a freshly built one."""
import itertools

import numpy as np

from mc import micro
from mc.core import ORACLE, Check, Violation, close, require

BASE = dict(micro.OPT, model="hanser", size=5, pixel_size=170, oversample_factor=1, zsize=4, zres=130)
BASES = {
    "h1": BASE,
    "h3": dict(BASE, size=4, oversample_factor=3, pixel_size=180.0, vec_corr="total", zrange=(-200.0, 20.0, 150)),
    "s1": dict(BASE, model="sheppard", size=6, zsize=8),
}
SIM = [("na_exc", (1.1, 0.7, 1)), ("wl_exc", (488, 520.0, 610)), ("wiener", (0.1, None, 0, 1.5)),
       ("orientations", ((0.0, 2.1, -1.3), (0.4,), [1.0, 2.5])), ("coherent", (False, True)), ("dc", (False, True)),
       ("dc_suppress", (True, False))]
SETTINGS = {
    "WidefieldMicroscope": [("oversample_factor", (1,))],
    "ApotomeMicroscope": [("oversample_factor", (1,))],
    "ConfocalMicroscope": [("pinhole_size", (1.5, 4, 0)), ("wl_exc", (460, 488.0, 600))],
    "SIM2DMicroscope": SIM, "SIM3DMicroscope": SIM, "LatticeSIMMicroscope": SIM,
}
# further values of one setting, tiny steps included
MORE = dict(pinhole_size=(1.5, 1.5000015, 1.6, 4, 0, 2.5, 2.49999), wl_exc=(460, 460.0005, 459.9, 488.0, 600),
            na_exc=(1.1, 1.100001, 1.2, 0.7, 0, 1), wiener=(0.1, 0.1000001, None, 0, 1.5, 1e-9),
            orientations=((0.0, 2.1, -1.3), (0.0, 2.1, -1.2999999), (2.1, 0.0), [0.0, 2.1, 1.3], (0.0, 2.1), (2.1,),
                          (0.0, 0.0)),
            coherent=(False, True), dc=(False, True), dc_suppress=(True, False))
FIXED = {"SIM2DMicroscope": dict(coherent=False, dc=False), "SIM3DMicroscope": dict(coherent=False, dc=True),
         "LatticeSIMMicroscope": dict(coherent=True, dc=True, orientations=(0, np.pi / 2))}
BAD = {"ConfocalMicroscope": [("pinhole_size", -1), ("pinhole_size", "a"), ("wl_exc", -488), ("wl_exc", "a")],
       "sim": [("na_exc", -1), ("wl_exc", "a"), ("wiener", -0.5), ("coherent", "x"), ("dc", None)],
       "": [("oversample_factor", -1), ("oversample_factor", 1.5), ("oversample_factor", "a")]}
READS = [("read", "PSF"), ("read", "OTF")]


def initial(kind):
    s = {k: v[0] for k, v in SETTINGS[kind] if k != "oversample_factor"}
    s.update(FIXED.get(kind, {}))
    return s


def construct(kind, bk, s):
    a = {k: v for k, v in s.items() if k not in FIXED.get(kind, {}) or kind not in FIXED}
    return micro.make(kind, BASES[bk], a)


def expect(kind, bk, s):
    """PSF and OTF of a fresh microscope with these settings."""
    s = dict(s)
    base = BASES[bk]
    f = s.pop("oversample_factor", None)
    if f is not None:
        base = dict(base, oversample_factor=f)
    if "SIM" in kind:
        kind = "BaseSIMMicroscope"
    m = micro.make(kind, base, s)
    return np.array(m.PSF), np.array(m.OTF), np.array(m.model_psf)


def alphabet(kind, bk, small):
    ops = list(READS)
    for k, vals in SETTINGS[kind]:
        if k == "oversample_factor":
            ops.append(("set", k, BASES[bk][k]))
        else:
            ops += [("set", k, v) for v in (vals[:2] if small and k not in ("wiener",) else vals)]
    bad = BAD["sim" if "SIM" in kind else kind if kind in BAD else ""]
    ops += [("bad",) + b for b in (bad[::2] if small else bad)]
    return ops


def freeze(s):
    return tuple(sorted((k, tuple(v) if isinstance(v, (list, tuple)) else v) for k, v in s.items()))


class C(Check):
    id = "C22"
    level = "model_checking"
    chunk = 1
    rule = ("Every history of setting assignments (new, repeated, rejected) and reads to the depth for every "
            "microscope type, and every pair of further values of each setting (tiny steps included) with every "
            "read in between, then PSF, OTF and every setting compared with a microscope freshly built in an "
            "undisturbed process; assignments of the oversampling factor explored separately.")
    assumptions = ["microscopes' detection models are left alone (their own histories are C04's)",
                   "settings are assigned, not modified in place"]

    def cases(self, tier):
        th = tier == "thorough"
        for kind in micro.TYPES:
            for bk in BASES:
                n = len(alphabet(kind, bk, not th))
                deep = (5 if th else 4) if "SIM" not in kind else (4 if th and bk == "h1" else 3)
                for first in range(n):
                    for second in range(n) if th and "SIM" in kind else (None,):
                        yield dict(kind=kind, bk=bk, first=first, second=second, depth=deep, small=not th)
        for kind in micro.TYPES:
            for name, _ in SETTINGS[kind]:
                if name in MORE:
                    for bk in BASES:
                        yield dict(t="steps", kind=kind, bk=bk, name=name)
        # Listed finding: the oversampling factor is not meant to be changed afterwards, but can be
        for kind in micro.TYPES:
            for bk in ("h1", "h3"):
                for to in (1, 3, 5, 2, 4):
                    if to == BASES[bk]["oversample_factor"]:
                        continue
                    for read in (None, "PSF", "OTF"):
                        for back in (False, True):
                            yield dict(t="oversample", kind=kind, bk=bk, to=to, read=read, back=back)

    def run(self, case):
        if case.get("t") == "oversample":
            return self.run_over(case)
        if case.get("t") == "steps":
            return self.run_steps(case)
        kind, bk = case["kind"], case["bk"]
        al = alphabet(kind, bk, case["small"])
        head = (al[case["first"]],) + ((al[case["second"]],) if case["second"] is not None else ())
        states, runs, tr = set(), 0, 0
        for rest in itertools.product(al, repeat=case["depth"] - len(head)):
            seq = head + rest
            s = initial(kind)
            m = construct(kind, bk, s)
            cached = frozenset()
            for op in seq:
                what = f"{kind} {bk} {seq}: "
                if op[0] == "read":
                    getattr(m, op[1])
                    cached |= {op[1]}
                elif op[0] == "set":
                    setattr(m, op[1], op[2])
                    if op[1] != "oversample_factor":
                        s[op[1]] = op[2]
                    cached = frozenset()
                else:
                    try:
                        setattr(m, op[1], op[2])
                    except Exception:  # noqa: refused, whatever the type
                        pass
                    else:
                        raise Violation(f"{what}accepted {op[1]}={op[2]!r}")
                states.add((kind, bk, freeze(s), cached))
                tr += 1
            self.verify(m, kind, bk, s, runs, what)
            runs += 1
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=states)

    def run_steps(self, case):
        """Every pair (for short value lists every triple) of values of one setting, with reads in between."""
        kind, bk, name = case["kind"], case["bk"], case["name"]
        vals = MORE[name]
        states, runs, tr = set(), 0, 0
        n = 3 if len(vals) <= 3 else 2
        for vs in itertools.product(vals, repeat=n):
            for reads in itertools.product(((), ("PSF",), ("OTF",), ("OTF", "PSF")), repeat=n - 1):
                s = initial(kind)
                m = construct(kind, bk, s)
                for v, r in zip(vs, reads + ((),)):
                    setattr(m, name, v)
                    s[name] = v
                    states.add((kind, bk, freeze(s), frozenset()))
                    for a in r:
                        getattr(m, a)
                        states.add((kind, bk, freeze(s), frozenset(r)))
                self.verify(m, kind, bk, s, runs, f"{kind} {bk} {name}: {vs} reading {reads}: ")
                runs += 1
                tr += n + sum(map(len, reads))
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=states)

    def verify(self, m, kind, bk, s, parity, what):
        for k, v in s.items():
            got = getattr(m, k)
            # an equal value may keep its old number type
            require((type(got) is type(v) or {type(got), type(v)} == {int, float}) and got == v, f"{what}{k} is {got!r}, assigned {v!r}")
        psf, otf, fine = ORACLE(expect, kind, bk, s)
        order = (("PSF", psf), ("OTF", otf), ("model_psf", fine))
        loss = max(1.0, float(abs(fine).sum() / max(abs(fine.sum()), 1e-300)))
        for name, want in order if parity % 2 == 0 else order[::-1]:
            close(getattr(m, name), want, f"{what}{name}", 1e-9 * loss)
        for k, v in s.items():
            require(getattr(m, k) == v, f"{what}reading changed {k}")

    def run_over(self, case):
        kind, bk, to = case["kind"], case["bk"], case["to"]
        s = initial(kind)
        m = construct(kind, bk, s)
        old = BASES[bk]["oversample_factor"]
        if case["read"]:
            getattr(m, case["read"])
        try:
            m.oversample_factor = to
        except Exception:  # noqa: a refusal changes nothing
            m_to = old
        else:
            m_to = to
        if case["back"]:
            m.oversample_factor = old
            m_to = old
        require(m.oversample_factor == m_to, f"oversample_factor is {m.oversample_factor}, assigned {m_to}")
        if m_to == old:
            self.verify(m, kind, bk, s, 0, f"{case}: ")
            return dict(sig=repr(case), states=[repr(case)], transitions=2, traces=1)
        require(to % 2 == 1, f"[accepted-even] oversample_factor={to} accepted after construction")
        psf, otf, _ = ORACLE(expect, kind, bk, dict(s, oversample_factor=to))
        try:
            close(m.PSF, psf, "PSF")
            close(m.OTF, otf, "OTF")
        except Violation as e:
            # the listed finding is exactly this: the fine grid built at construction, binned by the new factor
            fine = ORACLE(expect, kind, bk, s)[2]
            n = fine.shape[-1] - fine.shape[-1] % to
            kept = fine
            if to > 1:
                if fine.shape[-1] % 2 == 0:
                    kept = np.roll(kept, (to // 2, to // 2), axis=(1, 2))
                kept = kept[:, :n, :n].reshape(len(fine), n // to, to, n // to, to).sum((2, 4))
            stale = False
            if kept.size:
                try:
                    close(m.PSF, kept / kept.sum(), "PSF", 1e-8)
                    stale = True
                except Violation:
                    pass
            raise Violation(("[stale-grid] " if stale or not kept.size else "") + str(e))
        return dict(sig=repr(case), states=[repr(case)], transitions=2, traces=1)

    def classify(self, case, msg):
        if case.get("t") == "oversample" and msg.startswith(("[accepted-even]", "[stale-grid]")):
            return "C22-oversample"
        return None


CHECK = C()
