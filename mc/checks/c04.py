"""C04: explicit-state exploration of a model's parameter/cache/pupil states, replayed on real objects."""
import itertools

import numpy as np

from mc import objs, refs
from mc.core import ORACLE, Check, Violation, close, require

# two values per parameter, all combinations valid; the first is the initial one
VALUES = {
    "h": dict(wl=(500, 600.0), na=(1.2, 1), ni=(1.33, 1.5), res=(100, 80.0), size=(5, 4), zres=(90, 140.0),
              zsize=(3, 2), vec_corr=("none", "x"), condition=("sine", "none")),
    "s": dict(wl=(500, 600.0), na=(1.2, 1), ni=(1.33, 1.5), res=(100, 80.0), size=(7, 6), zres=(90, 140.0),
              zsize=(7, 6), vec_corr=("none", "x"), condition=("sine", "none"), dual=(False, True)),
}
# further values of one parameter: tiny and large steps, every option
MORE = dict(wl=(500, 500.0005, 499.9999, 500.05, 520, 1000.0), na=(1.2, 1.2000012, 1.19, 0.3, 1),
            ni=(1.33, 1.3300013, 1.34, 1.2000001, 1.5), res=(100, 100.0001, 99.99, 60, 101.0),
            size=(5, 4, 6, 7), zres=(90, 90.00009, 89.991, 91, 40.0), zsize=(3, 4, 5, 7),
            vec_corr=("none", "x", "y", "z", "total"), condition=("none", "sine", "herschel"), dual=(False, True),
            zrange=([-120.0, 40, 260.0], [-120.0, 40, 260.0001], [-120.0, 40.0001, 260.0], [-120.0, 260.0, 40],
                    [120.0, 40, 260.0], [-120.0, 40], [40], 40, [-90, 0, 90], [-90.0, 0.0, 90.0001]))
ZRANGES = ([-120.0, 40, 260.0], 75.0)
REJECTED = [("wl", -1), ("na", "x"), ("ni", None), ("res", 1e9), ("res", -1), ("size", 4.5), ("zsize", -2),
            ("zres", 0), ("vec_corr", "q"), ("condition", "q"), ("dual", 1)]


class State:
    """Boring reference: current parameters, explicit planes or not, possible applied pupils."""

    def __init__(self, kind):
        self.kind = kind
        self.p = {k: v[0] for k, v in VALUES[kind].items()}
        self.z = None  # explicit planes
        self.pups = {None}
        self.reads = frozenset()
        self.buffer = None  # the caller's pupil arrays by size, if it uses one array for all its pupils

    def key(self):
        return (self.kind, tuple(sorted(self.p.items())), None if self.z is None else str(self.z),
                tuple(sorted(self.pups, key=str)), self.reads)

    def step(self, op):
        t = op[0]
        if t == "set":
            _, name, v = op
            equal = self.p[name] == v
            self.p[name] = v
            if name in ("zsize", "zres"):
                equal = equal and self.z is None
                self.z = None
            self.changed(equal)
        elif t == "zrange":
            z = list(np.atleast_1d(np.array(op[1], dtype=float)))
            equal = z == list(self.planes())
            self.z = z
            self.changed(equal)
        elif t == "pupil":
            self.pups = {op[1]}
            self.reads = frozenset()
        elif t == "read":
            self.reads |= {op[1]}
        elif t == "badpupil":
            self.pups = self.pups | {None}
        elif t != "bad":
            raise ValueError(op)

    def changed(self, equal):
        if equal:
            self.pups = self.pups | {None}
        else:
            self.pups = {None}
            self.reads = frozenset()

    def planes(self):
        return self.z if self.z is not None else refs.uniform_planes(self.p["zsize"], self.p["zres"])


def apply(m, st, op):
    """Perform op on the real object."""
    t = op[0]
    if t == "set":
        setattr(m, op[1], op[2])
    elif t == "zrange":
        m.zrange = op[1]
    elif t == "pupil":
        p = objs.pupil(op[1], st.p["size"])
        if st.buffer is not None:
            b = st.buffer.setdefault(st.p["size"], p)
            b[...] = p
            p = b
        m.apply_pupil(p)
    elif t == "read":
        getattr(m, op[1])
    elif t == "badpupil":
        p = objs.pupil(1, st.p["size"] + 3)
        try:
            m.apply_pupil(p[None] if op[1] == 3 else p)
        except Exception:  # noqa: any refusal
            return
        raise Violation(f"pupil of shape {p.shape} accepted by a model of size {st.p['size']}")
    elif t == "bad":
        try:
            setattr(m, op[1], op[2])
        except (TypeError, ValueError):
            return
        raise Violation(f"{op[1]} = {op[2]!r} accepted")


def expect(kind, p, z, pup):
    return ORACLE(objs.fresh, kind, dict(sorted(p.items())), z, pup)


def verify(m, st, order, what):
    """All arrays and parameters equal those of a fresh model in some allowed state."""
    got = {}
    for a in order:
        got[a] = getattr(m, a)
    msgs = []
    for pup in sorted(st.pups, key=str):
        try:
            for a, e in zip(objs.ARRAYS, expect(st.kind, st.p, st.z, pup)):
                close(got[a], e, what + a)
            break
        except Violation as v:
            msgs.append(str(v))
    else:
        raise Violation(" / ".join(msgs))
    for k, v in st.p.items():
        require(getattr(m, k) == v, what + f"{k} reads {getattr(m, k)!r}, expected {v!r}")
    if st.kind == "h":
        close(m.zrange, np.array(st.planes()), what + "zrange", 1e-12)


ORDERS = [objs.ARRAYS, objs.ARRAYS[::-1]]


def full_alphabet(kind):
    ops = [("read", a) for a in objs.ARRAYS]
    for k, vs in VALUES[kind].items():
        ops += [("set", k, v) for v in vs[::-1]]
    if kind == "h":
        ops += [("zrange", z) for z in ZRANGES] + [("pupil", 1), ("pupil", 2), ("badpupil", 2), ("badpupil", 3)]
    ops += [("bad", k, v) for k, v in REJECTED if k != "dual" or kind == "s"]
    return ops


def mid_alphabet(kind):
    """One changed value per parameter, one way back, all reads."""
    ops = [("read", a) for a in objs.ARRAYS]
    ops += [("set", k, vs[1]) for k, vs in VALUES[kind].items()] + [("set", "wl", VALUES[kind]["wl"][0])]
    if kind == "h":
        ops += [("zrange", ZRANGES[0]), ("pupil", 1), ("badpupil", 2)]
    ops += [("bad", "wl", -1)]
    return ops


def core_alphabet(kind):
    ops = [("read", "PSFi"), ("read", "OTFi"), ("set", "wl", VALUES[kind]["wl"][1]),
           ("set", "wl", VALUES[kind]["wl"][0]), ("set", "zsize", VALUES[kind]["zsize"][1]), ("bad", "size", 4.5)]
    if kind == "h":
        ops += [("zrange", ZRANGES[0]), ("pupil", 1)]
    else:
        ops += [("read", "OTFa"), ("set", "condition", "none")]
    return ops


ALPHABETS = dict(full=full_alphabet, mid=mid_alphabet, core=core_alphabet)


class C(Check):
    id = "C04"
    level = "model_checking"
    chunk = 1
    rule = ("Every operation sequence to the stated depth over the full (both values of every parameter, explicit "
            "planes, two pupils, pupils of wrong shape, every rejected assignment, every read), middle and core alphabets, for both models, and "
            "every pair (of options every triple) of further values of each parameter, tiny steps included, with every "
            "read in between, each run on a real object and followed by all reads in two orders; states: reference states reached.")
    assumptions = ["values compared to 1e-9 of the largest modulus with a model built in a process that did nothing "
                   "else", "re-assigning an equal value may or may not discard an applied pupil", "a refused pupil may leave the previous or the default one"]

    def depths(self, tier):
        return dict(full=3, mid=4, core=7) if tier == "thorough" else dict(full=2, mid=3, core=5)

    def cases(self, tier):
        for kind in "hs":
            for name in MORE:
                if (name != "dual" or kind == "s") and (name != "zrange" or kind == "h"):
                    yield dict(kind=kind, steps=name, third=tier == "thorough" or name in ("vec_corr", "condition"))
        for name, depth in self.depths(tier).items():
            for kind in "hs":
                n = len(ALPHABETS[name](kind))
                k = min(2, depth)
                for prefix in itertools.product(range(n), repeat=k):
                    yield dict(kind=kind, alphabet=name, depth=depth, prefix=prefix)

    def run_steps(self, case):
        """Every pair (triple) of values of one parameter, with every single read, all or none in between."""
        kind, name = case["kind"], case["steps"]
        vals = MORE[name]
        op = (lambda v: ("zrange", v)) if name == "zrange" else (lambda v: ("set", name, v))
        reads = [()] + [(a,) for a in objs.ARRAYS] + [objs.ARRAYS]
        states, tr, runs = set(), 0, 0
        start = {k: v[0] for k, v in VALUES[kind].items()}
        plans = [(v, r) for v in itertools.product(vals, repeat=2) for r in itertools.product(reads, repeat=1)]
        if case["third"]:
            plans += [(v, r) for v in itertools.product(vals, repeat=3)
                      for r in itertools.product(reads[1:], repeat=2)]
        for vs, rs in plans:
            seq = [op(vs[0])]
            for v, r in zip(vs[1:], rs):
                seq += [("read", a) for a in r] + [op(v)]
            m, st = objs.build(kind, start), State(kind)
            for o in seq:
                apply(m, st, o)
                st.step(o)
                states.add(hash(st.key()))
            verify(m, st, ORDERS[runs % 2], f"{seq}: ")
            tr += len(seq)
            runs += 1
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=[hash(s) for s in states])

    def run(self, case):
        if "steps" in case:
            return self.run_steps(case)
        kind = case["kind"]
        ops = ALPHABETS[case["alphabet"]](kind)
        states, sigs, tr, runs = set(), set(), 0, 0
        prefix = tuple(case["prefix"])
        rest = case["depth"] - len(prefix)
        # shorter sequences are prefixes; check each length once
        lengths = range(0, rest + 1) if case["alphabet"] != "full" else range(rest, rest + 1)
        for n in lengths:
            for tail in itertools.product(range(len(ops)), repeat=n):
                seq = [ops[i] for i in prefix + tail]
                for o, order in enumerate(ORDERS):
                    if o and n != rest:
                        continue
                    m = objs.build(kind, {k: v[0] for k, v in VALUES[kind].items()})
                    st = State(kind)
                    st.buffer = None if o else {}
                    for op in seq:
                        apply(m, st, op)
                        st.step(op)
                        states.add(hash(st.key()))
                    verify(m, st, order, f"{seq} then {'/'.join(order)}: ")
                    tr += len(seq)
                    runs += 1
        return dict(evals=runs, states=states, transitions=tr, traces=runs, sigs=[hash(s) for s in states])


CHECK = C()
