"""Write MANIFEST.json from the check modules that exist."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, "/repo"]
ENUM = "bounded-exhaustive enumeration of configurations on the real code against a reference model"
NOTE = {
    "C01": (ENUM, "Every configuration of the stated grid is run on the real code and compared with an explicit DFT-matrix evaluation; nothing is claimed beyond the grid. Trusts numpy and the reference in mc/refs.py."),
    "C02": (ENUM, "As C01, against an explicit construction of the shell; voxels numerically on a decision boundary are skipped."),
    "C03": ("bounded-exhaustive enumeration of configurations checking invariants", "Every configuration of the grid; the invariants need no reference model except the DFT matrix."),
    "C04": ("explicit-state model checking: reference state machine replayed on the real objects", "Every operation sequence to the stated depth over the stated alphabets; values judged against a model built in a process that did nothing else. Trusts that arrays depend on the listed parameters only."),
    "C05": ("bounded-exhaustive enumeration of values x read-states", "Every catalogued value in every read-state; values outside the catalogue are not covered."),
    "C06": ("bounded-exhaustive enumeration of unit factors and numeric types", "Every listed factor and type on every listed configuration; powers of two make the comparison exact."),
    "C07": (ENUM, "Every single mode to 120, pairs to 15, all names and pairs of names on the stated grids, against an exact-rational Zernike reference."),
    "C08": ("explicit-state exploration of original/derived histories on real objects", "Every interleaving to the stated depth; judged by an undisturbed process."),
    "C09": (ENUM, "Every degree pair to the bound at exact rational reference values, every call form."),
    "C10": ("exhaustive enumeration of the whole index domain", "All 120 indices and all degree pairs in and around the triangle: complete for the domain."),
    "C11": ("bounded-exhaustive enumeration of shapes x axes over a complete basis of inputs", "By linearity (also checked on the basis) complete in the data for every shape to the bound."),
    "C12": ("bounded-exhaustive enumeration of sizes, centres and widths", "Complete within the size bounds."),
    "C13": ("bounded-exhaustive enumeration of shapes, bins and centres against brute-force group-by", "Complete within the stated bounds over a basis of inputs plus value-dependent cases."),
    "C14": ("bounded-exhaustive enumeration of small integer stacks against a loop reference", "Every stack of the stated small domains and structured larger ones."),
    "C15": ("bounded-exhaustive enumeration of runs against a reference transition system of the iteration", "Every data set, iteration limit and tolerance placement of the stated space; each run is compared step by step with the reference iteration."),
    "C16": ("exhaustive enumeration of iterations and inputs checking invariants of the iteration", "Every iteration of every run of the stated space."),
    "C17": ("explicit-state exploration of call sequences on real results", "Every call sequence to the stated depth; every single call of the stated parameter space against references."),
    "C18": ("exhaustive enumeration of settings", "Every combination of the settings, compared with the two documented steps."),
    "C19": (ENUM, "Every configuration of the stated grid against explicit block sums of a fresh model."),
    "C20": (ENUM, "Every configuration of the stated grid against explicit convolution and transform."),
    "C21": (ENUM, "Every configuration of the stated grid against the explicit interference model."),
    "C22": ("explicit-state model checking: setting histories replayed on real microscopes", "Every sequence to the stated depth over the stated alphabets."),
    "C23": ("bounded-exhaustive enumeration of volumes and options, observed on the drawn figure", "Every volume and option of the stated grid; what is drawn is read back from the axes."),
    "C24": ("stateless model checking: all line-level schedules of real threads to a preemption bound", "Two threads, scheduling points at every executed line of pyotf, every schedule to the preemption bound; nothing is claimed about more threads or preemption inside a line or inside numpy."),
    "C25": ("exhaustive fault-point enumeration on the real code", "An abort at every executed line of pyotf of every listed operation; aborts inside numpy calls surface at the calling line."),
    "C27": ("explicit-state exploration of assignment histories, representations compared with the reference state", "Every sequence to the stated depth; representations are read as Python calls."),
    "C26": ("explicit-state exploration of call pairs with mutation between them", "Every ordered pair of the listed calls; judged by an undisturbed process."),
}
LEVELS = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", pid.lower() + ".py")):
        src = open(os.path.join(V, "mc", "checks", pid.lower() + ".py")).read()
        level = [x for x in ("model_checking", "fault_enumeration", "exploration") if f'level = "{x}"' in src] or ["exploration"]
        level = level[0]
        t, n = NOTE[pid]
        cmd = f"/opt/venv/bin/python run.py {pid}"
        checks.append(dict(property=pid, quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=t, level=level, level_note=n))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); "
               "sys.dont_write_bytecode = True; import pyotf.microscope, pyotf.labview'",
               checks=checks, not_applicable=na,
               notes="No hooks: every check drives the public API of /repo's working tree. "
                     "See DESIGN.md for bounds, oracles and findings."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
