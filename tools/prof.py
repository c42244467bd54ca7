"""Time every case of a check, single process: tools/prof.py C05 [tier]"""
import sys, time, os
sys.path.insert(0, "/verif")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"): os.environ[v] = "1"
sys.path.insert(0, "/repo"); os.environ["MPLBACKEND"] = "Agg"; sys.dont_write_bytecode = True
from mc import core
core.import_code(); c = core.load(sys.argv[1]); core.ORACLE.start()
ts = []
for case in c.cases(sys.argv[2] if len(sys.argv) > 2 else "quick"):
    t = time.time(); r = core.run_case(c, case); ts.append((time.time() - t, case, r[0]))
    if len(ts) > 3000: break
print("total", sum(t[0] for t in ts), "cases", len(ts))
for t in sorted(ts, key=lambda t: -t[0])[:8]: print("%.3f" % t[0], str(t[1])[:200], t[2])
core.ORACLE.stop()
