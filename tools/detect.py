"""Run the check of each planted bug's property against the bug and record the outcome: detect.py [id ...] [--missed].

Writes detection.json: id -> [outcome, first message].  Works on copies of /repo and /verif.
"""
import json
import os
import shutil
import subprocess as sp
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, "detection.json")
W = "/tmp/detect"


def one(i):
    d = f"{W}/{i}"
    shutil.copytree("/repo", d, symlinks=True)
    try:
        sp.run(["git", "-C", d, "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
        prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        c = sp.run(["/opt/venv/bin/python", "run.py", prop], cwd=f"{W}/verif", capture_output=True, text=True,
                   env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS="4"))
        msg = c.stdout.splitlines()[2][:200].strip() if c.returncode == 1 else c.stdout[-200:]
        return i, [{0: "missed", 1: "caught"}.get(c.returncode, f"exit {c.returncode}"), msg]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    try:
        res = json.load(open(OUT))
    except FileNotFoundError:
        res = {}
    all_ids = sorted(os.listdir(V + "/seeded"))
    res = {k: v for k, v in res.items() if k in all_ids}
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or all_ids
    if "--missed" in sys.argv:
        ids = [i for i in ids if res.get(i, ["missed"])[0] != "caught"]
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree(V, W + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(one, ids):
            res[i] = r
            print(i, *r, flush=True)
            json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
    shutil.rmtree(W, ignore_errors=True)


main()
