"""C25: an exception at every executed line of every computation, then every read."""
import ast
import copy
import dis
import functools
import sys

import numpy as np

from mc import micro, objs, sched
from mc.checks import c15, c24
from mc.core import ORACLE, Check, Violation, close, require

H = dict(wl=520, na=1.2, ni=1.33, res=180, size=5, zsize=3, zres=150)
# kind, parameters, explicit planes, pupil
STATES = {
    "h": ("h", dict(H), None, None),
    "hv": ("h", dict(H, vec_corr="total", condition="herschel"), None, None),
    "hz": ("h", dict(H), (-100.0, 30.0, 250.0, 500.0), None),
    "hp": ("h", dict(H, condition="none"), None, 1),
    "hpz": ("h", dict(H, vec_corr="y"), (10.0, 400.0), 1),
    "s": ("s", dict(H, zsize=7), None, None),
    "sv": ("s", dict(H, zsize=8, dual=True, vec_corr="total"), None, None),
}
PRE = ((), ("PSFa",), ("OTFa",), ("PSFi",), ("OTFi",), ("OTFi", "OTFa"))
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
AFTER = ("reads", "reads backwards", "retry")
FILES = (sched.PREFIX, functools.__file__)


@functools.lru_cache(None)
def handlers(path):
    """Lines of the finally and except blocks of a file."""
    out = set()
    for n in ast.walk(ast.parse(open(path).read())):
        if isinstance(n, ast.Try):
            for b in n.finalbody + n.handlers:
                out.update(range(b.lineno, b.end_lineno + 1))
    return out


@functools.lru_cache(None)
def exits(code):
    """Offsets at which the exit of a with statement begins: no exception arises there except from a tracer."""
    ins = [i for i in dis.get_instructions(code) if i.opname != "CACHE"]
    return {a.offset for a, b, c, d in zip(ins, ins[1:], ins[2:], ins[3:])
            if all(i.opname == "LOAD_CONST" and i.argval is None for i in (a, b, c)) and d.opname == "CALL"}


class Fault:
    """Raises at the k-th line or return of the code (and of cached_property)."""

    def __init__(self, k=None, exc=None):
        self.k, self.exc, self.n, self.hit = k, exc, 0, None
        self.cleanup = False

    def local(self, frame, event, arg):
        if event in ("line", "return"):
            self.n += 1
            if self.n == self.k:
                self.hit = f"{event} {frame.f_code.co_name}:{frame.f_lineno}"
                self.cleanup = frame.f_lasti in exits(frame.f_code) or (
                    frame.f_lineno in handlers(frame.f_code.co_filename))
                raise self.exc("injected")
        return self.local

    def glob(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(FILES) else None

    def __call__(self, f, *a):
        sys.settrace(self.glob)
        try:
            return f(*a)
        finally:
            sys.settrace(None)


# ---- model operations: f(model, args); what they may leave behind


def o_read(name):
    return lambda m, a: np.array(getattr(m, name))


def o_apply(m, a):
    m.apply_pupil(a[0])


def o_ab(m, a):
    from pyotf.otf import apply_aberration

    r = apply_aberration(m, a[0], a[1])
    return np.array(r.PSFi), np.array(r.OTFa)


def o_named(m, a):
    from pyotf.otf import apply_named_aberrations

    return np.array(apply_named_aberrations(m, a[0]).PSFi)


def o_copy(m, a):
    c = copy.copy(m)
    return np.array(c.OTFi), np.array(c.PSFa)


MOPS = {k: (o_read(k), lambda: []) for k in objs.ARRAYS}
MOPS["copy"] = (o_copy, lambda: [])
HOPS = {
    "apply": (o_apply, lambda: [objs.pupil(2, H["size"])]),
    "apply rejected": (o_apply, lambda: [objs.pupil(2, H["size"] + 1)]),
    "apply 3d": (o_apply, lambda: [objs.pupil(2, H["size"])[None]]),
    "aberrate": (o_ab, lambda: [np.array([0.0, 0.1, -0.2]), np.array([0.1, 0.4, 0.5])]),
    "aberrate rejected": (o_ab, lambda: [np.array([0.0, 0.1, -0.2]), np.array([0.1, 0.4])]),
    "named": (o_named, lambda: [{"tip": 0.4, "primary spherical": -0.5}]),
}


def run_op(state, op):
    kind = STATES[state]
    f, mk = dict(MOPS, **HOPS)[op]
    try:
        return ("ok", f(objs.build(*kind), mk()))
    except Exception as e:  # noqa
        return ("exc", type(e).__name__)


def allowed(state, op):
    """The states of the model that an aborted operation may leave."""
    kind, p, zr, pup = STATES[state]
    if op.startswith("apply"):
        return [pup, None] + ([2] if op == "apply" else [])
    return [pup]


def params(m):
    return {p: copy.deepcopy(getattr(m, p)) for p in objs.PARAMS + (("zrange",) if hasattr(m, "zrange") else ("dual",))}


# ---- functions with arguments: (f(args), args)


def f_retrieve(a):
    from pyotf.phaseretrieval import retrieve_phase

    r = retrieve_phase(a[0], a[1], 3, 0, 0)
    return r.complex_pupil, r.mse


def f_prep(a):
    from pyotf.utils import prep_data_for_PR

    return prep_data_for_PR(a[0], 8, 1.1)


def f_zernike(a):
    from pyotf.zernike import zernike

    return zernike(*a)


def f_utils(a):
    from pyotf import utils

    return (utils.easy_fft(a[0]), utils.center_data(a[0]), utils.fft_pad(a[0], (7, 9)),
            utils.remove_bg(a[1], 1.5), utils.bin_ndarray(a[0], bin_size=(2, 1)), utils.psqrt(a[0] - 5),
            utils.radial_profile(a[0]))


def f_labview(a):
    from pyotf.labview import labview

    return np.array(labview(a[0], 520, 0.85, 1.0, 260, 300, 2, 0, 0))


def f_model(a):
    m = objs.cls("h")(**a[0])
    m.apply_pupil(a[1])
    m.zsize = 2
    return np.array(m.OTFi), np.array(m.OTFa)


def f_sheppard(a):
    return np.array(objs.cls("s")(**a[0]).OTFi)


def _data():
    return (np.arange(2 * 25).reshape(2, 5, 5) * 7919 % 101).astype(float) + 1


CASE = dict(n=4, nz=2, z="explicit", kind="ab", opt=5)
FUNCS = {
    "retrieve": (f_retrieve, lambda: [c15.make(CASE), c15.params(CASE)]),
    "prep": (f_prep, lambda: [_data().astype(int)]),
    "zernike": (f_zernike, lambda: [np.linspace(0, 1.1, 6), np.linspace(-3, 3, 6), np.array([1, 4, 11])]),
    "utils": (f_utils, lambda: [_data()[0, :4], _data().astype(int)]),
    "labview": (f_labview, lambda: [(np.arange(32).reshape(2, 4, 4) * 7919 % 31).tolist()]),
    "model": (f_model, lambda: [dict(H, zrange=[-100.0, 0.0, 150.0]), objs.pupil(1, 5)]),
    "sheppard": (f_sheppard, lambda: [dict(H, zsize=6, vec_corr="x")]),
}


def run_func(name):
    f, mk = FUNCS[name]
    return f(mk())


# ---- retrieval results

ROPS = dict(c24.ROPS, fit=lambda r: (r.fit_to_zernikes(4).pcoefs, r.zd_result.mcoefs))
ROPS.pop("model")


def rstate(r):
    """Everything a retrieval result answers, in one list per decomposition."""
    return [np.array(r.mag), np.array(r.phase), np.array(r.mse), r.generate_psf(), np.array(r.model.zrange),
            r.zd_result.mcoefs, r.zd_result.pcoefs, r.zd_result.zerns, r.generate_zd_psf(sphase=slice(None))]


def run_r(op):
    return ROPS[op](c24.setup("r"))


def run_rstate(n):
    r = c24.setup("r")
    r.fit_to_zernikes(n)
    return rstate(r)


# ---- microscopes

KOPS = ("PSF", "OTF", "model_psf")


def run_k(kind):
    m = c24.setup(kind)
    return [np.array(getattr(m, k)) for k in KOPS] + [np.array(m.model.PSFi), np.array(m.model.OTFi)]


def kparams(m):
    d = {k: getattr(m, k) for k in dir(type(m)) if isinstance(getattr(type(m), k), property) and k != "model_psf"}
    d["det"] = params(m.model)
    if hasattr(m, "model_exc"):
        d["exc"] = params(m.model_exc)
    return copy.deepcopy(d)


def same(a, b, what):
    """Values are equal bit for bit."""
    require(type(a) is type(b), f"{what}: {type(a).__name__}, was {type(b).__name__}")
    if isinstance(a, np.ndarray):
        require(a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes(), f"{what} changed")
    elif isinstance(a, dict):
        require(list(a) == list(b), f"{what}: keys changed")
        for k in a:
            same(a[k], b[k], f"{what}[{k!r}]")
    elif isinstance(a, (list, tuple)):
        require(len(a) == len(b), f"{what}: length changed")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what}[{i}]")
    else:
        require(a == b, f"{what} changed from {b!r} to {a!r}")


class Target:
    """One operation on an object in a given state, and what has to hold afterwards."""

    def __init__(self, case):
        self.case = case
        self.ctx, self.op = case["ctx"], case["op"]
        if self.ctx in STATES:
            self.want = ORACLE(run_op, self.ctx, self.op)
            k, p, z, _ = STATES[self.ctx]
            self.ok = [(pu, ORACLE(objs.fresh, k, p, z, pu)) for pu in allowed(self.ctx, self.op)]
        elif self.ctx == "r":
            self.want = ("ok", ORACLE(run_r, self.op))
            self.ok = [ORACLE(run_rstate, n) for n in ([6, 4] if self.op == "fit" else [6])]
        elif self.ctx == "f":
            self.want = ("ok", ORACLE(run_func, self.op))
        else:
            self.ok = ORACLE(run_k, self.ctx)
            self.want = ("ok", self.ok[KOPS.index(self.op)])

    def setup(self):
        ctx = self.ctx
        self.args, self.obj = [], None
        if ctx in STATES:
            self.obj = objs.build(*STATES[ctx])
            for r in self.case["pre"]:
                getattr(self.obj, r)
            self.f, mk = dict(MOPS, **HOPS)[self.op]
            self.args = mk()
            self.call = lambda: self.f(self.obj, self.args)
            self.par = params(self.obj)
        elif ctx == "r":
            self.obj = c24.setup("r")
            self.call = lambda: ROPS[self.op](self.obj)
            self.par = params(self.obj.model)
        elif ctx == "f":
            self.f, mk = FUNCS[self.op]
            self.args = mk()
            self.call = lambda: self.f(self.args)
        else:
            self.obj = c24.setup(ctx)
            for r in self.case["pre"]:
                getattr(self.obj, r)
            self.call = lambda: np.array(getattr(self.obj, self.op))
            self.par = kparams(self.obj)
        self.before = copy.deepcopy(self.args)
        self.err = np.geterr()

    def result(self, got, what):
        """The outcome of an operation that was not aborted."""
        require(got[0] == self.want[0], f"{what}: {got}"[:300])
        if got[0] == "exc":
            require(got[1] == self.want[1], f"{what}: raised {got[1]}, expected {self.want[1]}")
        elif self.want[1] is not None:
            c24.agree(got[1], self.want[1], what)

    def again(self, what):
        try:
            got = ("ok", self.call())
        except Exception as e:  # noqa
            got = ("exc", type(e).__name__)
            if self.want[0] != "exc":
                raise Violation(f"{what}: {type(e).__name__}: {e}")
        self.result(got, what)

    def reads(self, order):
        ctx = self.ctx
        if ctx in STATES:
            got = {a: np.array(getattr(self.obj, a)) for a in objs.ARRAYS[::order]}
            msgs = []
            ok = self.ok
            if self.retried and self.op.startswith("apply"):
                ok = ok[2:] or ok
            for pup, want in ok:
                try:
                    for a, w in zip(objs.ARRAYS, want):
                        close(got[a], w, a)
                    return f"pupil {pup}"
                except Violation as e:
                    msgs.append(f"as with pupil {pup}: {e}")
            raise Violation("arrays afterwards agree with no single pupil: " + "; ".join(msgs))
        if ctx == "r":
            msgs = []
            got = rstate(self.obj)
            for want in self.ok[::-1][:1] if self.retried else self.ok:
                try:
                    c24.agree(got, want, "result afterwards")
                    return len(want[5])
                except Violation as e:
                    msgs.append(str(e))
            raise Violation("; ".join(msgs))
        if ctx != "f":
            names = list(zip(KOPS, self.ok))
            for k, w in names[::order]:
                close(np.array(getattr(self.obj, k)), w, k)
            for k, w in list(zip(("PSFi", "OTFi"), self.ok[3:]))[::order]:
                close(np.array(getattr(self.obj.model, k)), w, "detection " + k)
        return None

    def unchanged(self):
        same(self.args, self.before, "arguments")
        require(np.geterr() == self.err, f"numpy's error settings became {np.geterr()}")
        if self.ctx in STATES:
            same(params(self.obj), self.par, "parameters")
        elif self.ctx == "r":
            same(params(self.obj.model), self.par, "model parameters")
        elif self.ctx != "f":
            same(kparams(self.obj), self.par, "parameters")

    def check(self, faults, exc, after):
        """Abort the operation at each of the given points in turn, then look."""
        np.seterr(**ERRS[sum(faults) % 2])
        self.setup()
        where, n = [], 0
        for k in faults:
            f = Fault(k, EXC[exc])
            try:
                try:
                    got = ("ok", f(self.call))
                except EXC[exc]:
                    got = None
                except Exception as e:  # noqa
                    got = ("exc", type(e).__name__)
                n += 1
                where.append(f"{exc} at {f.hit}")
                if got is not None:
                    # nothing was left to abort, or the code dealt with the exception itself
                    if f.hit is None or got[0] == "ok":
                        self.result(got, "outcome")
                if f.cleanup:
                    # nothing can restore settings when the restoring itself is aborted
                    np.seterr(**self.err)
                self.unchanged()
            except Violation as e:
                raise Violation(f"{self.ctx} {self.op} with {', '.join(where)}: {e}")
        self.retried = after == "retry"
        try:
            if self.retried:
                self.again("the same operation again")
            sig = self.reads(-1 if after == "reads backwards" else 1)
            self.unchanged()
            if not self.retried:
                self.retried = True
                self.again("the same operation after the reads")
        except Violation as e:
            raise Violation(f"{self.ctx} {self.op} with {', '.join(where)}, then {after}: {e}")
        except Exception as e:  # noqa
            raise Violation(f"{self.ctx} {self.op} with {', '.join(where)}, then {after}: {type(e).__name__}: {e}")
        return (self.ctx, self.op, tuple(where), sig)

    def points(self):
        self.setup()
        f = Fault()
        try:
            f(self.call)
        except Exception:  # noqa
            if self.want[0] != "exc":
                raise
        return f.n

    def all(self, plans):
        before = sched.fingerprint()
        sigs = [self.check(*p) for p in plans]
        return sigs, sched.fingerprint() != before


def _points(t):
    return t.points()


def _all(t, plans):
    try:
        return t.all(plans)
    except Violation as e:
        return str(e), None


# error settings of numpy the operations run under
ERRS = (dict(divide="warn", over="warn", under="ignore", invalid="warn"),
        dict(divide="ignore", over="ignore", under="warn", invalid="ignore"))
# two aborts in a row are explored for operations with at most this many points
TWO = 260


class C(Check):
    id = "C25"
    level = "fault_enumeration"
    chunk = 1
    rule = ("Every line and every return executed by pyotf or cached_property during an operation is an abort "
            "point; each gets each exception type, followed by reads in both orders or by the same operation again; "
            "every operation for every set of arrays read before it. Thorough: also two aborts in a row.")
    assumptions = ["an abort inside a numpy call acts like one at its line",
                   "aborted assignments of parameters are not claimed"]

    def cases(self, tier):
        th = tier == "thorough"
        for ctx in STATES:
            ops = list(MOPS) + (list(HOPS) if ctx[0] == "h" else [])
            for op in ops:
                for pre in PRE if th or ctx in ("h", "hp", "s") else PRE[::4]:
                    yield dict(ctx=ctx, op=op, pre=pre, two=None, th=th)
        for op in FUNCS:
            yield dict(ctx="f", op=op, two=None, th=th)
        for op in ROPS:
            yield dict(ctx="r", op=op, two=None, th=th)
        for ctx in micro.TYPES:
            for op in KOPS:
                for pre in ((), ("PSF",), ("OTF",), ("model_psf",)):
                    yield dict(ctx=ctx, op=op, pre=pre, two=None, th=th)
        if th:
            for ctx in STATES:
                for op in ("PSFa", "PSFi", "OTFi", "apply", "aberrate"):
                    if op in MOPS or ctx[0] == "h":
                        for pre in ((), ("OTFi", "OTFa")):
                            for part in range(16):
                                yield dict(ctx=ctx, op=op, pre=pre, two=part, th=th)

    def run(self, case):
        t = Target(case)
        tag, n = sched.in_child(_points, t)
        require(tag == "ok", f"the operation alone: {n}")
        if case["two"] is None:
            plans = [((k,), exc, after) for k in range(1, n + 1) for exc in EXC for after in
                     (AFTER if case["th"] or exc == "KeyboardInterrupt" else AFTER[2:])]
        else:
            if n > TWO:
                return dict(evals=0, stats=dict(too_long_for_two=int(not case["two"])))
            plans = [((k, j), "KeyboardInterrupt", after) for k in range(1, n + 1) for j in range(1, n + 1)
                     if (k * n + j) % 16 == case["two"] for after in AFTER[:2]]
            if not plans:
                return dict(evals=0)
        # as long as the code's modules keep no state, aborts share a process
        tag, r = sched.in_child(_all, t, plans)
        require(tag == "ok", f"{case['ctx']} {case['op']}: {r}")
        sigs, changed = r
        require(changed is not None, sigs)
        if changed:
            for p in plans:
                tag, r = sched.in_child(_all, t, [p])
                require(tag == "ok", f"{case['ctx']} {case['op']}: {r}")
                require(r[1] is not None, r[0])
        return dict(evals=len(plans), sigs=[tuple(map(repr, s)) for s in sigs], traces=len(plans),
                    stats=dict(points=n, cold=len(plans) if changed else 0))


CHECK = C()
