"""Systematic mutants of pyOTF against the checks: mutate.py OUT.json [module ...] [--list] [--jobs N].

Every applicable one-place change (operator, constant, condition, deleted statement, dropped or swapped argument) of
each module is written to a scratch copy of the package, and the module's checks are run against it, cheapest first,
until one reports a violation.  What survives is either equivalent or a gap to look at.
"""
import ast
import copy
import json
import os
import shutil
import subprocess as sp
import sys
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {"otf": "C01 C05", "utils": "C14 C11 C13", "zernike": "C10 C09", "phaseretrieval": "C15", "microscope": "C19", "display": "C23",
         "labview": "C18"}
# the checks of a function or method
FUNC = {
    "utils": {"easy_fft": "C11", "easy_ifft": "C11", "_calc_pad": "C12", "_padding_slices": "C12", "_calc_crop": "C12",
              "fft_pad": "C12", "slice_maker": "C12", "bin_ndarray": "C13", "radial_profile": "C13 C20",
              "NumericProperty.__init__": "C05 C22"},
    "otf": {"__repr__": "C27", "plot_psf": "C23", "plot_otf": "C23", "_validate_zrange": "C23", "_attribute_changed": "C04",
            "PSFi": "C01 C04", "OTFi": "C03 C04", "SheppardPSF._gen_kr": "C02", "SheppardPSF._gen_otf": "C02 C04",
            "SheppardPSF.OTFa": "C02", "SheppardPSF.PSFa": "C02", "SheppardPSF": "C05 C04", "apply_aberration": "C07 C08",
            "apply_named_aberration": "C07", "apply_named_aberrations": "C07", "named_aberration_to_pcoefs": "C07",
            "zrange": "C01 C04 C26", "_gen_zrange": "C01 C04", "zsize": "C04", "HanserPSF.zres": "C04", "HanserPSF": "C01 C04",
            "BasePSF": "C05 C04"},
    "phaseretrieval": {"plot": "C23", "plot_convergence": "C23", "plot_named_coefs": "C23", "plot_coefs": "C23",
                       "_plot_complex_pupil": "C23", "PhaseRetrievalResult": "C17", "ZernikeDecomposition": "C17",
                       "_fit_to_zerns": "C17", "_recon_from_zerns": "C17"},
    "microscope": {"__repr__": "C27", "plot_psf": "C23", "plot_otf": "C23", "_plot_zres": "C23", "_disk_kernel": "C20",
                   "ConfocalMicroscope": "C20 C22", "ApotomeMicroscope": "C20", "BaseSIMMicroscope": "C21 C22 C05",
                   "_attribute_changed": "C22", "_choose_model": "C05 C19", "WidefieldMicroscope.__init__": "C05 C19", "SIM2DMicroscope": "C21",
                   "SIM3DMicroscope": "C21", "LatticeSIMMicroscope": "C21"},
    "display": {"max_min": "C12", "fft_max_min": "C12"},
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult],
       ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.MatMult: []}


def parents(tree):
    return {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}


def sites(tree):
    """(path-free) list of (node index, variant name, function changing the node in place)."""
    out = []
    par = parents(tree)
    doc = set()
    dead = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            dead.add(n.body[0].value)
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) \
                and n.test.left.id == "__name__":
            dead.update(ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id in ("logger", "warnings"):
            dead.update(ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)) :
            for a in [*n.args.args, *n.args.kwonlyargs]:
                if a.annotation:
                    dead.update(ast.walk(a.annotation))
            if n.returns:
                dead.update(ast.walk(n.returns))
    for i, n in enumerate(ast.walk(tree)):
        if n in dead or n in doc:
            continue
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                for new in CMP.get(type(o), []):
                    out.append((i, f"{type(o).__name__}->{new.__name__}", lambda m, j=j, new=new: m.ops.__setitem__(j, new())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                out.append((i, f"{type(n.op).__name__}->{new.__name__}", lambda m, new=new: setattr(m, "op", new())))
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Div, ast.FloorDiv)):
                out.append((i, "swap operands", lambda m: (lambda a, b: (setattr(m, "left", b), setattr(m, "right", a)))(m.left, m.right)))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
        elif isinstance(n, ast.UnaryOp):
            out.append((i, "drop unary", lambda m: ("replace", m.operand)))
        elif isinstance(n, ast.Constant):
            if isinstance(par.get(n), ast.JoinedStr) or isinstance(par.get(n), ast.FormattedValue):
                continue
            if n.value is True or n.value is False:
                out.append((i, "not bool", lambda m: setattr(m, "value", not m.value)))
            elif isinstance(n.value, int):
                out.append((i, "+1", lambda m: setattr(m, "value", m.value + 1)))
                out.append((i, "-1", lambda m: setattr(m, "value", m.value - 1)))
            elif isinstance(n.value, (float, complex)):
                out.append((i, "*1.01", lambda m: setattr(m, "value", m.value * 1.01)))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out.append((i, "if True", lambda m: setattr(m, "test", ast.Constant(True))))
            out.append((i, "if False", lambda m: setattr(m, "test", ast.Constant(False))))
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                out.append((i, f"drop keyword {n.keywords[k].arg}", lambda m, k=k: m.keywords.pop(k)))
            if len(n.args) >= 2:
                out.append((i, "swap args", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1])))
                out.append((i, "drop last arg", lambda m: m.args.pop()))
        elif isinstance(n, (ast.Raise, ast.AugAssign, ast.Delete, ast.Assert)) or isinstance(n, ast.Expr):
            out.append((i, "delete statement", lambda m: ("replace", ast.Pass())))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((i, "delete assignment", lambda m: ("replace", ast.Pass())))
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
        if isinstance(n, (ast.AugAssign,)):
            out.append((i, "delete statement", lambda m: ("replace", ast.Pass())))
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            out.append((i, "keep left only", lambda m: setattr(m, "value", m.value.left)))
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            for k in range(len(n.decorator_list)):
                out.append((i, "cached->property", None) if getattr(n.decorator_list[k], "id", "") == "cached_property"
                           else (i, "skip", None))
    return [o for o in out if o[2] is not None]


def mutants(mod):
    src = open(f"/repo/pyotf/{mod}.py").read()
    tree = ast.parse(src)
    for k, (i, name, f) in enumerate(sites(tree)):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        line = getattr(n, "lineno", 0)
        before = ast.unparse(n)[:120].splitlines()[0]
        r = f(n)
        if isinstance(r, tuple) and r and r[0] == "replace":
            for p in ast.walk(t):
                for field, val in ast.iter_fields(p):
                    if val is n:
                        setattr(p, field, r[1])
                    elif isinstance(val, list):
                        for q, w in enumerate(val):
                            if w is n:
                                val[q] = r[1]
        ast.fix_missing_locations(t)
        try:
            new = ast.unparse(t)
        except Exception:
            continue
        path = []
        body = tree.body
        while True:
            d = next((x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.lineno <= line <= x.end_lineno), None)
            if d is None:
                break
            path.append(d.name)
            body = d.body
        table = FUNC.get(mod, {})
        path = path[:2]
        order = next((table[q] for q in (".".join(path), path[-1] if path else "", path[0] if path else "") if q in table), ORDER[mod])
        yield f"{mod}:{line}:{k}", name, before, new, order


W = "/tmp/mutants"


def one(job):
    mid, name, before, new, order, jobs, verif = job
    mod = mid.split(":")[0]
    d = f"{W}/{mid.replace(':', '_')}"
    shutil.copytree("/repo/pyotf", d + "/pyotf", ignore=shutil.ignore_patterns("__pycache__"))
    vd = d + "/verif"
    shutil.copytree(verif, vd)
    try:
        open(f"{d}/pyotf/{mod}.py", "w").write(new)
        t0 = time.time()
        for c in order.split():
            try:
                r = sp.run(["/opt/venv/bin/python", "run.py", c], cwd=vd, capture_output=True, text=True, timeout=400,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS=str(jobs), VERIF_MAX_VIOLATIONS="0", OMP_NUM_THREADS="1"))
            except sp.TimeoutExpired:
                return mid, [c, "timeout", name, before]
            if r.returncode == 1:
                lines = r.stdout.splitlines()
                k = next((j for j, x in enumerate(lines) if x.startswith("VIOLATION")), 0)
                return mid, [c, lines[k + 2][:160].strip() if len(lines) > k + 2 else "", name, before]
            if r.returncode:
                return mid, [c, f"exit {r.returncode} " + r.stderr[-200:], name, before]
        return mid, ["", f"survived {time.time() - t0:.0f}s", name, before]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    out, mods = args[0], args[1:] or list(ORDER)
    only = None
    for m in list(mods):
        if ":" in m:
            only = (only or set()) | {m}
    if only:
        mods = sorted({m.split(":")[0] for m in only})
    jobs = 1
    also = next((a[7:].replace(",", " ") for a in sys.argv if a.startswith("--also=")), None)
    res = json.load(open(out)) if os.path.exists(out) else {}
    todo = []
    os.makedirs(W, exist_ok=True)
    verif = f"{W}/verif0"
    shutil.rmtree(verif, ignore_errors=True)
    os.makedirs(verif)
    shutil.copytree(V + "/mc", verif + "/mc", ignore=shutil.ignore_patterns("__pycache__"))
    for f in ("run.py", "known_findings.json"):
        shutil.copy(f"{V}/{f}", verif)
    for m in mods:
        for mid, name, before, new, order in mutants(m):
            if (only and mid in only) or (not only and mid not in res):
                todo.append((mid, name, before, new, also or order, jobs, verif))
    print(len(todo), "mutants")
    if "--list" in sys.argv:
        return
    with ThreadPoolExecutor(8) as ex:
        for fut in as_completed([ex.submit(one, t) for t in todo]):
            mid, r = fut.result()
            res[mid] = r
            if not r[0] or r[1] == "timeout" or r[1].startswith("exit"):
                print(mid, r, flush=True)
            json.dump(res, open(out, "w"), indent=0)


if __name__ == "__main__":
    main()
