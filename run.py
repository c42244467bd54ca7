#!/usr/bin/env python
"""Entry point: run.py <property id> [--tier quick|thorough] [--replay FILE] [--jobs N]."""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl-%d" % os.getuid())
sys.dont_write_bytecode = True
# never read bytecode that may lie stale beside the sources
sys.pycache_prefix = "/nonexistent/verif-pycache"
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]

if __name__ == "__main__":
    from mc.core import main

    sys.exit(main(sys.argv[1:]))
