"""Make planted bugs from a list of edits and confirm each: mkseed.py SPEC.py [id ...] [--nocheck].

SPEC defines SEEDS: dicts with id, prop, edits [(file, old, new)], demo (Python), needs, breaks.
A bug is kept only if it applies, keeps the tests passing, and its demonstration separates the trees.
"""
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess as sp
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "2caeac7"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONHASHSEED="0")
PRE = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np


def expect(cond, what):
    if not cond:
        print("property broken:", what)
        sys.exit(1)


def close(a, b, what, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, what + f": shape {a.shape}, expected {b.shape}")
    expect(np.allclose(a, b, rtol=tol, atol=tol * np.max(np.abs(b)), equal_nan=True), what)


'''
SH = '''#!/bin/sh
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def one(s, check):
    d = f"/tmp/sc/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        for f, old, new in s["edits"]:
            p = f"{d}/pyotf/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "EDIT", f"{t.count(old)} occurrences of {old!r:.80}"
            open(p, "w").write(t.replace(old, new))
        patch = sp.run(["git", "-C", d, "diff", "--no-color"], capture_output=True, text=True).stdout
        if not patch:
            return s["id"], "EDIT", "no change"
        # lines that were added by our own commits must not be touched
        fixed = set()
        for f in sorted({e[0] for e in s["edits"]}):
            bl = sp.run(["git", "-C", "/repo", "blame", "-s", f"{BASE}..HEAD", "--", "pyotf/" + f],
                        capture_output=True, text=True).stdout.splitlines()
            own = {i + 1 for i, l in enumerate(bl) if not l.startswith("^")}
            n = None
            infile = False
            for l in patch.splitlines():
                if l.startswith("diff --git"):
                    infile = l.endswith("pyotf/" + f)
                    n = None
                elif infile and l.startswith("@@"):
                    n = int(re.match(r"@@ -(\d+)", l).group(1))
                elif infile and n is not None:
                    if l.startswith("-"):
                        fixed |= {(f, n)} if n in own else set()
                        n += 1
                    elif not l.startswith("+"):
                        n += 1
        out = f"{V}/seeded/{s['id']}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.py", "w").write(PRE + s["demo"].strip() + "\n")
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(out + "/meta.json", "w"), indent=1)
        msg = []
        if fixed:
            msg.append(f"TOUCHES-FIX {sorted(fixed)}")
        a = sp.run(["sh", out + "/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True, timeout=300)
        b = sp.run(["sh", out + "/demo.sh"], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
        if a.returncode:
            msg.append("DEMO-FAILS-CLEAN " + (a.stdout + a.stderr)[-300:])
        if not b.returncode:
            msg.append("DEMO-PASSES-PATCHED")
        elif b.returncode != 1 or "property broken" not in b.stdout:
            msg.append("demo ends by " + (b.stdout + b.stderr).strip()[-160:])
        t = sp.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider",
                    "--timeout=300", "--doctest-modules", "-x", "pyotf/", "tests/"], cwd=d,
                   env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
        if t.returncode:
            msg.append("TESTS-FAIL " + " ".join(re.findall(r"FAILED (\S+)", t.stdout)[:2]))
        hit = "-"
        if check:
            c = sp.run(["/opt/venv/bin/python", "run.py", s["prop"]], cwd=check,
                       env=dict(ENV, VERIF_REPO=d, VERIF_JOBS="4"), capture_output=True, text=True, timeout=3000)
            hit = {0: "MISSED", 1: "caught"}.get(c.returncode, f"exit {c.returncode}")
            if c.returncode == 1:
                hit += ": " + " ".join(c.stdout.splitlines()[2:3])[:150].strip()
            elif c.returncode:
                hit += (c.stdout + c.stderr)[-300:]
        if any(m.split()[0].isupper() for m in msg):
            shutil.rmtree(out)
        return s["id"], "; ".join(msg) or "ok", hit
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = importlib.util.spec_from_file_location("spec", args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    seeds = [s for s in m.SEEDS if not args[1:] or s["id"] in args[1:]]
    copy = None
    if "--nocheck" not in sys.argv:
        copy = "/tmp/sc/verif"
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree(V, copy, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    with ThreadPoolExecutor(3) as ex:
        for i, m1, m2 in ex.map(lambda s: one(s, copy), seeds):
            print(i, "|", m1, "|", m2, flush=True)
    if copy:
        shutil.rmtree(copy, ignore_errors=True)


main()
