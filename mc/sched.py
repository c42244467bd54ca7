"""A controlled scheduler: real threads, one runs at a time, every executed line of the code is a switch point."""
import os
import pickle
import struct
import sys
import threading

from mc.core import REPO

PREFIX = os.path.join(REPO, "pyotf") + os.sep
STALL = 0.5
MON, TOOL = sys.monitoring, 4


class Scheduler:
    """Runs functions in threads along a plan.

    plan: segments (thread, steps); a thread runs that many lines (None: to its end) before the next segment.
    """

    def __init__(self, plan, opcodes=False, record=None, sig=None):
        self.plan = list(plan)
        self.opcodes = opcodes
        self.record, self.sig, self.sigs = record, sig, []  # thread of which to note the state before each of its lines
        self.seg = 0
        self.left = self.plan[0][1]
        self.cond = threading.Condition()
        self.done = set()
        self.steps = {}
        self.total = 0
        self.free = False  # a thread is blocked outside our control: let everything run

    def _turn(self):
        return self.plan[self.seg][0] if self.seg < len(self.plan) else None

    def _advance(self):
        self.seg += 1
        while self.seg < len(self.plan) and self.plan[self.seg][0] in self.done:
            self.seg += 1
        if self.seg < len(self.plan):
            self.left = self.plan[self.seg][1]
        self.cond.notify_all()

    def _wait(self, tid):
        while not self.free and self._turn() not in (tid, None):
            seen = self.total
            if not self.cond.wait(STALL) and seen == self.total:
                self.free = True
                self.cond.notify_all()

    def point(self, tid):
        if self.free:
            return
        with self.cond:
            self._wait(tid)
            if self.free:
                return
            if self._turn() == tid and self.left == 0:
                self._advance()
                self._wait(tid)
            if tid == self.record:
                self.sigs.append(self.sig())
            self.total += 1
            self.steps[tid] = self.steps.get(tid, 0) + 1
            if self.left is not None and self._turn() == tid:
                self.left -= 1

    def writes(self):
        """Numbers of lines of the recorded thread just before and just after which the state changed."""
        out = set()
        for i, (a, b) in enumerate(zip(self.sigs, self.sigs[1:])):
            if a != b:
                out |= {i, i + 1}
        return sorted(out)

    def finish(self, tid):
        with self.cond:
            if tid == self.record:
                self.sigs.append(self.sig())
            self.done.add(tid)
            if self._turn() in self.done:
                self._advance()

    def trace(self, tid):
        def local(frame, event, arg):
            if event == "line":
                self.point(tid)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(PREFIX) else None

        return glob

    def _instruction(self, code, offset):
        if not code.co_filename.startswith(PREFIX):
            return MON.DISABLE
        tid = self.tids.get(threading.get_ident())
        if tid is not None:
            self.point(tid)

    def watch(self, on):
        """Opcode events, for all threads at once."""
        if on:
            MON.use_tool_id(TOOL, "verif")
            MON.register_callback(TOOL, MON.events.INSTRUCTION, self._instruction)
            MON.set_events(TOOL, MON.events.INSTRUCTION)
        else:
            MON.set_events(TOOL, 0)
            MON.register_callback(TOOL, MON.events.INSTRUCTION, None)
            MON.free_tool_id(TOOL)

    def run(self, funcs):
        out = [None] * len(funcs)
        def body(tid, f):
            try:
                with self.cond:
                    self._wait(tid)
                if self.opcodes:
                    self.tids[threading.get_ident()] = tid
                    try:
                        out[tid] = ("ok", f())
                    finally:
                        del self.tids[threading.get_ident()]
                else:
                    sys.settrace(self.trace(tid))
                    try:
                        out[tid] = ("ok", f())
                    finally:
                        sys.settrace(None)
            except BaseException as e:  # noqa
                out[tid] = ("exc", f"{type(e).__name__}: {e}")
            finally:
                self.finish(tid)

        if self.opcodes:
            self.tids = {}
            self.watch(True)
        ts = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(funcs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            if t.is_alive():
                out = [o or ("exc", "no result within 60 s") for o in out]
        if self.opcodes:
            self.watch(False)
        return out


def in_child(f, *args):
    """Run f in a forked child, so that nothing it leaves behind reaches the next run."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", f(*args))
            except BaseException as e:  # noqa
                import traceback
                out = ("exc", f"{type(e).__name__}: {e} {traceback.format_exc()}")
            data = pickle.dumps(out, protocol=4)
            data = memoryview(struct.pack("<Q", len(data)) + data)
            while data:
                data = data[os.write(w, data[: 1 << 20]):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if len(buf) < 8:
        return ("exc", "child died")
    return pickle.loads(buf[8:])


def contents(x):
    """What an object of the code holds, by value, for arrays up to a moderate size, else by identity."""
    import numpy as np

    out, seen, keep = [], set(), []

    def walk(v):
        if isinstance(v, (type(None), bool, int, float, complex, str, bytes)):
            out.append(v)
        elif id(v) in seen:
            out.append(id(v))
        elif isinstance(v, np.ndarray):
            out.append((v.shape, hash(v.tobytes()) if v.nbytes < 1 << 16 and v.dtype != object else id(v)))
        else:
            seen.add(id(v))
            keep.append(v)
            if isinstance(v, (list, tuple)):
                out.append(len(v))
                for w in v:
                    walk(w)
            elif isinstance(v, dict):
                for k, w in list(v.items()):
                    out.append(k if isinstance(k, str) else repr(k))
                    walk(w)
            elif type(v).__module__.split(".")[0] == "pyotf":
                walk(v.__dict__)
            else:
                out.append(id(v))

    walk(x)
    return hash(tuple(out))


def fingerprint():
    """A hash of everything the code's modules hold: globals, defaults, closures, class attributes, caches."""
    import functools
    import hashlib
    import types

    import numpy as np

    seen, out = set(), hashlib.sha1()
    plain = (type(None), bool, int, float, complex, str, bytes)

    def put(*a):
        out.update(repr(a).encode())

    def walk(x, depth=0):
        if isinstance(x, plain):
            put(x)
            return
        if id(x) in seen or depth > 12:
            put("seen", id(x))
            return
        seen.add(id(x))
        keep.append(x)
        if isinstance(x, np.ndarray):
            put(x.shape, str(x.dtype))
            out.update(x.tobytes())
            return
        if isinstance(x, (list, tuple)):
            put(type(x).__name__, len(x))
            for v in x:
                walk(v, depth + 1)
            return
        if isinstance(x, (set, frozenset)):
            put("set", sorted(map(repr, x)))
            return
        if isinstance(x, dict):
            put("dict", len(x))
            for k, v in list(x.items()):
                walk(k, depth + 1)
                walk(v, depth + 1)
            return
        if isinstance(x, types.ModuleType):
            put(x.__name__)
            if x.__name__.split(".")[0] == "pyotf":
                for k, v in sorted(vars(x).items()):
                    if not k.startswith("__"):
                        put(k)
                        walk(v, depth + 1)
            return
        if hasattr(x, "cache_info"):
            put(x.cache_info())
        if isinstance(x, functools.partial):
            walk([x.func, x.args, x.keywords], depth + 1)
            return
        if isinstance(x, property):
            walk([x.fget, x.fset, x.fdel], depth + 1)
            return
        mod = getattr(x, "__module__", None) if isinstance(x, (type, types.FunctionType)) else type(x).__module__
        mod = (mod or "").split(".")[0]
        if isinstance(x, types.FunctionType):
            if mod == "pyotf":
                walk([x.__defaults__, x.__kwdefaults__, x.__dict__], depth + 1)
                for c in x.__closure__ or ():
                    try:
                        walk(c.cell_contents, depth + 1)
                    except ValueError:
                        put("empty")
            return
        if isinstance(x, type):
            if mod == "pyotf":
                for k, v in sorted(vars(x).items()):
                    if k not in ("__dict__", "__weakref__", "__doc__", "__slotnames__"):
                        put(k)
                        walk(v, depth + 1)
            return
        put("obj", type(x).__name__, id(x))
        if mod in ("logging", "numpy", "matplotlib", "mpl_toolkits", "scipy", "typing", "skimage"):
            return
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict):
            walk(d, depth + 1)
        elif type(x).__name__ in ("local", "_local", "deque", "bytearray", "memoryview"):
            put(repr(x), os.urandom(8))  # cannot tell: count as changed

    keep = []
    for name in sorted(sys.modules):
        if name.split(".")[0] == "pyotf":
            walk(sys.modules[name])
    return out.hexdigest()
