"""Runner shared by all checks: bounded-exhaustive cases, replay, known findings, evidence.

A check module defines CHECK, a subclass instance of Check.  `cases(tier)` yields every case of the
bounded space in a fixed order (simplest first) as JSON-able dicts; `run(case)` executes one case on the
real code, compares it with the oracle and raises Violation.  Everything is deterministic.
"""
import argparse
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import pickle
import signal
import struct
import sys
import time
import traceback
import warnings

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 400


class Violation(Exception):
    """The property does not hold on this case."""


class Check:
    id = None
    level = "exploration"
    rule = ""
    assumptions = []
    chunk = 1

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case):
        """Run a case; return a dict with optional counts and a `sig` of the observed outcome.

        Keys: evals (int), sig (hashable) or sigs (iterable), states (iterable of hashables),
        transitions (int), traces (int), skipped (int), stats (dict of ints, summed).
        """
        raise NotImplementedError

    def classify(self, case, msg):
        """Return the id of the known finding a violation belongs to, if any."""
        return None


# ---------------------------------------------------------------- comparing


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def close(actual, expected, what, tol=1e-9, scale=None):
    """Arrays agree in shape and in every value to tol times the largest expected modulus."""
    try:
        a = np.asarray(actual)
        e = np.asarray(expected)
        require(a.shape == e.shape, f"{what}: shape {a.shape}, expected {e.shape}")
        if not a.size:
            return
        if not a.ndim:
            a, e = a.reshape(1), e.reshape(1)
        nan_a, nan_e = np.isnan(a), np.isnan(e)
    except (TypeError, ValueError) as ex:
        raise Violation(f"{what}: not comparable, {actual!r:.80}: {ex}")
    require(np.array_equal(nan_a, nan_e), f"{what}: NaN pattern differs")
    if scale is None:
        scale = np.max(np.abs(np.where(nan_e, 0, e)))
        if not np.isfinite(scale):
            scale = 1.0
        scale = scale or 1.0
    d = np.abs(np.where(nan_a, 0, a) - np.where(nan_e, 0, e))
    d[~np.isfinite(d)] = np.where(np.asarray(a)[~np.isfinite(d)] == np.asarray(e)[~np.isfinite(d)], 0, np.inf)
    m = d.max()
    if not m <= tol * scale:
        i = tuple(int(v) for v in np.unravel_index(d.argmax(), d.shape))
        raise Violation(f"{what}: differs at {i}: {a[i]!r}, expected {e[i]!r} (scale {scale:.3g})")


def raises(exc, func, what):
    """func must raise one of exc."""
    try:
        r = func()
    except exc as e:
        return type(e).__name__
    except Exception as e:  # noqa
        raise Violation(f"{what}: raised {type(e).__name__}: {e} instead of {exc}")
    raise Violation(f"{what}: accepted, returned {r!r:.60}")


def digest(*arrays):
    """A short signature of observed values, rounded so that it is only used to count outcomes."""
    h = hashlib.sha1()
    for a in arrays:
        if isinstance(a, np.ndarray) or np.isscalar(a):
            a = np.asarray(a)
            if a.dtype.kind in "fc":
                s = np.nanmax(np.abs(a)) if a.size else 1.0
                a = np.round(a / (s or 1.0), 6) + 0.0
                h.update(str(round(float(np.log10(s or 1.0)), 5)).encode())
            h.update(str(a.shape).encode() + a.tobytes())
        else:
            h.update(repr(a).encode())
    return h.hexdigest()[:16]


# ---------------------------------------------------------------- pristine oracle


import logging

logging.disable(logging.CRITICAL)


def import_code():
    """Import everything of the code under test once, so that forked children start from that state."""
    for m in ("otf", "phaseretrieval", "microscope", "labview"):
        importlib.import_module("pyotf." + m)
    import pyotf
    here = os.path.dirname(os.path.abspath(pyotf.__file__))
    assert here == os.path.join(REPO, "pyotf"), f"imported pyotf from {here}"


class Oracle:
    """Evaluates functions in children forked from a process that has only imported the code.

    What it returns cannot depend on anything the exploring process did before.
    """

    def __init__(self):
        self.memo = {}
        self.pid = None

    def start(self):
        rq, wq = os.pipe()
        rr, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(wq)
                os.close(rr)
                self._serve(rq, wr)
            finally:
                os._exit(0)
        os.close(rq)
        os.close(wr)
        self.pid, self.w, self.r = pid, wq, rr
        self.owner = os.getpid()

    @staticmethod
    def _read(fd, n):
        out = b""
        while len(out) < n:
            b = os.read(fd, min(n - len(out), 1 << 20))
            if not b:
                raise EOFError
            out += b
        return out

    @staticmethod
    def _write(fd, data):
        data = memoryview(struct.pack("<Q", len(data)) + data)
        while data:
            data = data[os.write(fd, data[: 1 << 20]):]

    def _serve(self, rq, wr):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        while True:
            try:
                (n,) = struct.unpack("<Q", self._read(rq, 8))
                req = self._read(rq, n)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    f, args = pickle.loads(req)
                    try:
                        out = ("ok", f(*args))
                    except Exception as e:  # noqa
                        out = ("exc", type(e).__name__ + ": " + str(e) + "\n" + traceback.format_exc())
                    self._write(wr, pickle.dumps(out, protocol=4))
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                self._write(wr, pickle.dumps(("exc", f"oracle child status {status}")))

    def __call__(self, f, *args):
        key = pickle.dumps((f, args), protocol=4)
        if key not in self.memo:
            if self.pid is None or self.owner != os.getpid():
                raise RuntimeError("oracle not started in this process")
            self._write(self.w, key)
            (n,) = struct.unpack("<Q", self._read(self.r, 8))
            tag, val = pickle.loads(self._read(self.r, n))
            if tag != "ok":
                raise Violation(f"a freshly built object fails: {val}")
            self.memo[key] = val
        return self.memo[key]

    def stop(self):
        if self.pid and self.owner == os.getpid():
            os.close(self.w)
            os.close(self.r)
            try:
                os.waitpid(self.pid, 0)
            except ChildProcessError:
                pass
            self.pid = None


ORACLE = Oracle()


# ---------------------------------------------------------------- running


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout()


def run_case(check, case):
    """Return (kind, payload): ok / violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return "ok", check.run(case) or {}
    except Violation as e:
        return "violation", str(e)
    except CaseTimeout:
        return "violation", f"no result within {CASE_TIMEOUT} s"
    except MemoryError:
        raise
    except Exception as e:  # noqa
        # the case never fails on a tree where the property holds, so this is the code's doing
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
        return "violation", f"unexpected {type(e).__name__}: {e} [{where}]"
    finally:
        signal.alarm(0)


_CHECK = None


def _worker_init():
    ORACLE.start()


def _worker(chunk):
    out = []
    for i, case in chunk:
        kind, payload = run_case(_CHECK, case)
        if kind == "ok":
            r = dict(payload)
            sigs = set(r.get("sigs", ()))
            if r.get("sig") is not None:
                sigs.add(r["sig"])
            out.append((i, kind, dict(evals=r.get("evals", 1), sigs=sigs,
                                      states=set(r.get("states", ())),
                                      transitions=r.get("transitions", 0),
                                      traces=r.get("traces", 0), skipped=r.get("skipped", 0),
                                      stats=r.get("stats", {}))))
        else:
            out.append((i, kind, payload))
    return out


def _chunks(it, n):
    buf = []
    for x in enumerate(it):
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def load(pid):
    return importlib.import_module("mc.checks." + pid.lower()).CHECK


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {k["id"]: k for k in d.get("findings", []) if k["property"] == pid}


def write_replay(pid, n, case, msg):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", f"{pid}-{n}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, case=case, message=msg,
                       replay=f"/opt/venv/bin/python /verif/run.py {pid} --replay {path}"), f, indent=1)
    return path


def main(argv):
    global _CHECK
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4))
    a = ap.parse_args(argv)
    t0 = time.time()
    import_code()
    check = _CHECK = load(a.property)
    pid = check.id
    known = known_findings(pid)
    tier = "thorough" if a.tier == "thorough" else "quick"

    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)["case"]
        ORACLE.start()
        kind, payload = run_case(check, case)
        ORACLE.stop()
        print(kind, payload if kind == "violation" else "")
        return 1 if kind == "violation" else 0

    evals = cases = transitions = traces = skipped = 0
    sigs, states, stats = set(), set(), {}
    viol, samples, found = [], [], {}
    ctx = mp.get_context("fork")
    if "VERIF_MAX_VIOLATIONS" in os.environ:
        # looking for any violation (tools/mutate.py): spread over the space first
        all_cases = list(check.cases(tier))
        k = next(k for k in range(int(len(all_cases) * 0.618) + 1, 2 * len(all_cases) + 2) if math.gcd(k, len(all_cases)) == 1)
        all_cases = [all_cases[i * k % len(all_cases)] for i in range(len(all_cases))]
        check.cases = lambda tier: iter(all_cases)

    def gen():
        nonlocal cases
        for c in check.cases(tier):
            cases += 1
            if len(samples) < 3 or (cases in (10, 100, 1000, 10000)):
                samples.append(c)
            yield c

    unlisted, limit = 0, int(os.environ.get("VERIF_MAX_VIOLATIONS", "2000"))
    with ctx.Pool(a.jobs, initializer=_worker_init) as pool:
        for out in pool.imap_unordered(_worker, _chunks(gen(), check.chunk)):
            for i, kind, r in out:
                if kind == "ok":
                    evals += r["evals"]
                    sigs |= r["sigs"]
                    states |= r["states"]
                    transitions += r["transitions"]
                    traces += r["traces"]
                    skipped += r["skipped"]
                    for k, v in r["stats"].items():
                        stats[k] = stats.get(k, 0) + v
                else:
                    viol.append((i, r))
                    unlisted += not r.startswith("[")
            # enough to report; a violating tree needs no complete exploration
            if unlisted > limit:
                pool.terminate()
                break
        else:
            pool.close()
            pool.join()

    reported = []
    if viol:
        viol.sort()
        by_index = {i: m for i, m in viol}
        for i, c in enumerate(check.cases(tier)):
            if i in by_index:
                k = check.classify(c, by_index[i])
                if k in known:
                    f = found.setdefault(k, [0, c, by_index[i]])
                    f[0] += 1
                else:
                    reported.append((c, by_index[i]))
                if len(reported) >= 3:
                    break
    for k, (n, c, m) in sorted(found.items()):
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']} ({n} explored cases, first: {m})")
    for n, (c, m) in enumerate(reported):
        path = write_replay(pid, n, c, m)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {json.dumps(c)[:400]}")
        print(f"  {m[:600]}")

    cov = dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=check.rule,
               samples=samples, cases=cases, exhaustive=not reported,
               skipped_ill_conditioned=skipped)
    if check.level == "model_checking":
        cov.update(states=len(states), transitions=transitions, traces_validated_against_impl=traces)
    cov.update(getattr(check, "coverage_extra", lambda tier: {})(tier))
    if stats:
        cov["stats"] = stats
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0),
              level=check.level, coverage=cov, assumptions=check.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(reported))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: cases={cases} evaluations={evals} outcomes={len(sigs)} states={len(states)} "
          f"transitions={transitions} traces={traces} skipped={skipped} "
          f"stats={stats} wall={ev['wall_s']}s violations={len(reported)}")
    return 1 if reported else 0
