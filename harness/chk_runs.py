"""
Runs do not depend on the history and leave the data of the caller untouched (S09).
"""

import copy
import importlib
import importlib.util
import json
import os
import pickle
import subprocess
import sys

import chk_plots
import peec
from common import execute

# ----------------------------------------------------------------------------
# documents
# ----------------------------------------------------------------------------

TAIL = {
    "data_point": {"check_cloud": False, "full_cloud": False, "pts_cloud": [[0.01, 0.0, 0.0], [0.0, 0.02, 0.001]]},
    "data_resampling": {"use_reduce": False, "use_resample": True, "resampling_factor": [1, 1, 1]},
    "data_conflict": {"resolve_rules": True, "resolve_random": False, "conflict_rules": [{"domain_resolve": ["mid"], "domain_keep": ["src"]}]},
    "data_integrity": {"domain_connected": {"x": {"domain_group": [["src"], ["snk"]], "connected": True}}, "domain_adjacent": {}},
}


def geometry(n, dom, **kwargs):
    return {"mesh_type": "voxel", "data_voxelize": {"param": {"n": n, "d": [1e-3, 2e-3, 1.5e-3], "c": [0.0, 0.001, 0.0]}, "domain_index": dom},
            **copy.deepcopy(TAIL), **kwargs}


def problem(material, extra, bad=False):
    val = {"i": {"I_re": 1.0, "I_im": 0.5, "Y_re": 0.1, "Y_im": 0.0}, "v": {"V_re": [2.0], "V_im": [0.0], "Z_re": [0.5], "Z_im": [0.1]}}
    sweep = {}
    for (tag, init, freq) in [("dc", None, 0.0), ("ac", "dc", 2e4)]:
        src = copy.deepcopy(val)
        if bad and tag == "ac":
            src["v"]["V_re"] = [1.0, 2.0, 3.0]
        sweep[tag] = {"init": init, "param": {"freq": freq, "material_val": copy.deepcopy({k: v[1] for k, v in material.items()}), "source_val": src}}
    return {
        "material_def": {k: v[0] for k, v in material.items()},
        "source_def": {"i": {"domain_list": ["src"], "source_type": "current", "var_type": "lumped"},
                       "v": {"domain_list": ["snk"], "source_type": "voltage", "var_type": "distributed"}},
        "sweep_solver": sweep,
    }


def documents():
    """
    Contents of the objects.
    """

    cu = ({"domain_list": ["src", "mid", "snk"], "material_type": "electric", "orientation_type": "isotropic", "var_type": "lumped"},
          {"rho_re": 1e-3, "rho_im": 0.0})
    fe = ({"domain_list": ["mag"], "material_type": "magnetic", "orientation_type": "anisotropic", "var_type": "lumped"},
          {"chi_re": [50.0, 20.0, 10.0], "chi_im": [1.0, 2.0, 3.0]})
    bad = geometry([3, 2, 1], {"src": [0], "mid": [1], "snk": [2], "mag": [3, 4, 5]})
    bad["data_integrity"]["domain_connected"]["x"]["connected"] = False
    return {
        "g1": geometry([3, 2, 1], {"src": [0], "mid": [0, 1], "snk": [2], "mag": [3, 4, 5]}),
        "g2": geometry([3, 1, 2], {"src": [0], "mid": [1, 2, 4], "snk": [5]}),
        "gx": bad,
        "p1": problem({"cu": cu}, {}),
        "p2": problem({"cu": cu, "fe": fe}, {}),
        "px": problem({"cu": cu}, {}, bad=True),
        "t1": peec.tolerance(),
        "t2": peec.tolerance(fft_options__library="NumPy", fft_options__matrix_split=False, integral_simplify=1.0, biot_savart="voxel"),
        "t3": peec.tolerance(mult_type="direct", solver_options__direct_options__solver="gcrot"),
        "t4": peec.tolerance(solver_options__coupling="segregated"),
        "t5": peec.tolerance(solver_options__direct_options__n_inner=1, solver_options__direct_options__n_outer=1,
                             solver_options__direct_options__rel_tol=1e-14, solver_options__tolerance_options__ignore_res=False,
                             solver_options__tolerance_options__rel_tol=1e-14),
        "t6": peec.tolerance(solver_options__power_options__stop=True, solver_options__power_options__n_min=1, solver_options__power_options__n_cmp=1,
                             solver_options__power_options__rel_tol=0.5, condition_options__check=False),
        "t7": peec.tolerance(condition_options__tolerance_electric=1e-3, condition_options__tolerance_magnetic=1e-3, integral_simplify=2.0),
        "tlib": peec.tolerance(factorization_options__library="PARDISO"),
        "tx": {k: v for k, v in peec.tolerance().items() if k != "mult_type"},
    }


def assign(dst, src):
    """
    Change a content in place (the nested containers and arrays are kept where possible).
    """

    import numpy as np

    def merge(old, new):
        if type(old) is type(new) and isinstance(old, (dict, list)):
            assign(old, new)
            return old
        if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype and old.flags.writeable:
            old[...] = new
            return old
        return copy.deepcopy(new)

    if isinstance(dst, dict):
        out = {k: (merge(dst[k], v) if k in dst else copy.deepcopy(v)) for k, v in src.items()}
        dst.clear()
        dst.update(out)
    else:
        dst[:] = [merge(dst[k], v) if k < len(dst) else copy.deepcopy(v) for k, v in enumerate(src)]


def spoil(x):
    """
    Overwrite a result in place.
    """

    import numpy as np

    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list, np.ndarray)):
                spoil(x[k])
            else:
                x[k] = "spoiled"
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list, np.ndarray)):
                spoil(v)
        x.append("spoiled")
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = np.zeros(1, dtype=x.dtype) + np.ones(1, dtype=x.dtype)


# ----------------------------------------------------------------------------
# comparison
# ----------------------------------------------------------------------------

# the estimates of the condition numbers are randomized (SciPy "onenormest")
SKIP = ["date", "duration", "seconds", "cond_electric", "cond_magnetic"]


def same(a, b, exact):
    """
    Compare two data (numbers up to the rounding errors, unless exact).
    """

    import numpy as np

    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k], exact) for k in a if exact or k not in SKIP)
    if isinstance(a, (list, tuple)) and not (a and all(isinstance(x, (int, float, complex, np.number)) and not isinstance(x, bool) for x in a)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, exact) for x, y in zip(a, b))
    if isinstance(a, (bool, str, np.bool_)) or a is None:
        if isinstance(a, str) and isinstance(b, str) and not exact and a != b:
            try:
                return bool(abs(float(a)-float(b)) <= 1e-5*abs(float(a))+1e-9)
            except ValueError:
                return False
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple, np.ndarray, int, float, complex, np.number)):
        if not isinstance(b, (list, tuple, np.ndarray, int, float, complex, np.number)):
            return False
        (a, b) = (np.asarray(a), np.asarray(b))
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if exact or a.dtype.kind not in "fc":
            return bool(np.array_equal(a, b))
        if a.size == 0:
            return True
        if not (np.isfinite(a) == np.isfinite(b)).all():
            return False
        (a, b) = (np.where(np.isfinite(a), a, 0), np.where(np.isfinite(b), b, 0))
        return bool(np.abs(a-b).max() <= 1e-6*np.abs(a).max()+1e-12)
    # objects of other libraries
    return type(a) is type(b)


# ----------------------------------------------------------------------------
# runs
# ----------------------------------------------------------------------------

def mesh(g):
    from pypeec import main
    return main.run_mesher_data(g)


def solve(v, p, t):
    from pypeec import main
    return main.run_solver_data(v, p, t)


def plot(kind, data):
    req = {"kind": "viewer" if kind == "V" else "plotter", "mode": "save", "folder": "", "name": "",
           "selplot": {"all": True, "list": []}, "selsweep": {"all": True, "list": []}, "plots": []}
    if kind == "V":
        req["plots"] = [{**chk_plots.PLOT, "tag": "a", "layout": "domain"}, {**chk_plots.PLOT, "tag": "b", "layout": "mesh"}]
    else:
        req["plots"] = [{**chk_plots.PLOT, "tag": "a", "layout": "norm_voxel", "var": "J_c"},
                        {**chk_plots.PLOT, "tag": "b", "layout": "material"},
                        {**chk_plots.PLOT, "tag": "c", "layout": "arrow_point", "var": "H_p"},
                        {**chk_plots.PLOT, "tag": "d", "layout": "convergence", "framework": "matplotlib"}]
    obs = chk_plots.call(req, data)
    if not obs["ok"]:
        raise RuntimeError(obs["err"])
    return {"files": sorted(obs["files"], key=lambda x: x["name"]), "left": obs["left"]}


REF = {}


def reference(term, doc=None):
    """
    Result of a run made alone (in a new process).
    """

    doc = doc or documents()
    part = term.split(".")
    try:
        out = mesh(doc[part[1]])
        if part[0] == "S":
            out = solve(out, doc[part[2]], doc[part[3]])
    except Exception:  # noqa: BLE001
        return None
    return out


def reference_plot(term):
    return plot(term.split(".")[0], reference(term))


def classify(x, kind, guess):
    """
    Name of the run which has this result.
    """

    for name in [guess] + [k for k in REF if k.startswith(kind) and k != guess]:
        if REF.get(name) is not None and same(REF[name], x, False):
            return name
    return "other"


def run_history(item, doc=None):
    doc = doc or documents()
    obj = {k: copy.deepcopy(doc[v]) for k, v in item["start"].items()}
    cont = dict(item["start"])
    made = []
    terms = []
    spoiled = set()
    obs = []
    for e in item["hist"]:
        ok = True
        try:
            if e["op"] == "edit":
                assign(obj[e["obj"]], doc[e["to"]])
                cont[e["obj"]] = e["to"]
            elif e["op"] == "mesh":
                made.append(mesh(obj[e["obj"]]))
                terms.append("V." + cont[e["obj"]])
            elif e["op"] == "solve":
                if e["h"] > len(made):
                    break
                made.append(solve(made[e["h"]-1], obj[e["obj"]], obj[e["to"]]))
                terms.append("S." + terms[e["h"]-1][2:] + "." + cont[e["obj"]] + "." + cont[e["to"]])
            elif e["op"] == "plot":
                if e["h"] > len(made):
                    break
                made.append(plot(terms[e["h"]-1][0], made[e["h"]-1]))
                terms.append("W." + terms[e["h"]-1])
            elif e["op"] == "spoil":
                if e["h"] > len(made):
                    break
                spoil(made[e["h"]-1])
                spoiled.add(e["h"]-1)
        except Exception:  # noqa: BLE001
            ok = False
        seen = {}
        for (k, v) in obj.items():
            names = [cont[k]] + [x for x in doc if x[0] == k[0] and x != cont[k]]
            seen[k] = next((x for x in names if same(doc[x], v, True)), "other")
        obs.append({"ok": ok, "objects": seen,
                    "made": ["spoiled" if k in spoiled else classify(x, terms[k][0], terms[k]) for k, x in enumerate(made)]})
    return {"start": item["start"], "hist": item["hist"], "obs": obs}


# ----------------------------------------------------------------------------
# twins: problems which are different in one thing only
# ----------------------------------------------------------------------------

def in_child(fct, *args):
    """
    Result of a function which is run in a forked process.
    """

    (r, w) = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(w, "wb") as fid:
                pickle.dump(fct(*args), fid)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fid:
        out = fid.read()
    os.waitpid(pid, 0)
    return pickle.loads(out)


def run_twins(item):
    """
    Runs of several problems which are nearly the same, in one process, compared with runs made alone.

    This process runs nothing by itself (so that each of its child processes is a new one).
    """

    # only imported here: the child processes would import the libraries again and again
    import pypeec.main  # noqa: F401
    for name in ["run.mesher", "run.solver", "run.viewer", "run.plotter", "lib_check.check_data_format"]:
        try:
            importlib.import_module("pypeec." + name)
        except ImportError:
            pass

    doc = dict(item["doc"])
    REF.clear()
    bad = []
    for k in range(item["count"]):
        for term in ["V.gk%d" % k, "S.gk%d.pk%d.tk%d" % (k, k, k)]:
            REF[term] = in_child(reference, term, doc)
            if REF[term] is None:
                bad.append(term)
            elif item["plot"]:
                REF["W." + term] = in_child(lambda x: plot(x[0], REF[x]), term)
    # the history of the specification has no runs which fail
    good = [k for k in range(item["count"]) if not any(x.split(".")[1] == "gk%d" % k for x in bad)]
    if not good:
        return {"start": {}, "hist": [], "obs": []}
    order = [k for k in item["order"] if k in good]
    start = {x + "a": "%sk%d" % (x, good[0]) for x in "gpt"}
    hist = []
    n_made = 0
    for k in order:
        hist += [{"op": "edit", "obj": x + "a", "to": "%sk%d" % (x, k), "h": 0} for x in "gpt"]
        hist.append({"op": "mesh", "obj": "ga", "to": "", "h": 0})
        hist.append({"op": "solve", "obj": "pa", "to": "ta", "h": n_made + 1})
        n_made += 2
        if item["plot"]:
            hist.append({"op": "plot", "obj": "", "to": "", "h": n_made})
            n_made += 1
    return in_child(run_history, {"start": start, "hist": hist}, doc)


def vary(rng, req, tol, geo):
    """
    Change one thing of a problem.
    """

    (req, tol, geo) = copy.deepcopy((req, tol, geo))

    def scale(val, fact):
        return [scale(x, fact) for x in val] if isinstance(val, list) else repr(float(val)*fact)

    what = rng.choice(["d", "turn", "d1", "c", "n", "order", "points", "freq", "dc", "rho", "source", "kind", "simplify", "field",
                       "mult", "split", "fft", "tags", "resample", "accuracy", "coupling"])
    if what == "d":
        req["d"] = [req["d"][k] for k in rng.choice([[1, 0, 2], [0, 2, 1], [2, 1, 0], [1, 2, 0]])]
    elif what == "turn":
        # same volume of the voxels
        k = rng.randrange(3)
        req["d"] = [repr(float(x)*(2 if j == k else 0.5 if j == (k+1) % 3 else 1)) for (j, x) in enumerate(req["d"])]
    elif what == "d1":
        k = rng.randrange(3)
        req["d"][k] = repr(1.25*float(req["d"][k]))
    elif what == "c":
        req["c"][rng.randrange(3)] = rng.choice(["0.0003", "0.1"])
    elif what == "n":
        # same number of voxels, same indices
        req["n"] = [req["n"][k] for k in rng.choice([[1, 0, 2], [0, 2, 1], [2, 1, 0], [1, 2, 0]])]
    elif what == "order":
        for t in req["dom"]:
            req["dom"][t] = req["dom"][t][::-1]
    elif what == "points":
        req["pts"] = [[repr(float(x) + 0.01) for x in p] for p in req["pts"]] + [["0.05", "0.0", "0.02"]]
    elif what == "freq":
        req["freq"] = repr(3*float(req["freq"]) + 100.0)
    elif what == "dc":
        req["freq"] = "0.0"
    elif what == "rho":
        m = rng.choice(req["mats"])
        k = rng.choice([k for k in m["val"] if k.endswith("_re")])
        m["val"][k] = scale(m["val"][k], 1.7)
    elif what == "source":
        x = rng.choice(req["srcs"])
        for k in x["val"]:
            if k[0] in "IV":
                x["val"][k] = scale(x["val"][k], -1.3)
    elif what == "kind":
        x = rng.choice(req["srcs"])
        new = {"current": ("voltage", {"I": "V", "Y": "Z"}), "voltage": ("current", {"V": "I", "Z": "Y"})}[x["type"]]
        x["type"] = new[0]
        x["val"] = {new[1][k[0]] + k[1:]: v for k, v in x["val"].items()}
        if new[0] == "current":
            x["val"]["Y_re"] = scale(x["val"]["Y_re"], 0)
            x["val"]["Y_re"] = [repr(float(v) + 1.0) for v in x["val"]["Y_re"]] if isinstance(x["val"]["Y_re"], list) else "1.0"
    elif what == "simplify":
        tol["integral_simplify"] = rng.choice([1.0, 1.5, 2.0])
    elif what == "field":
        tol["biot_savart"] = "voxel" if tol["biot_savart"] == "face" else "face"
    elif what == "mult":
        tol["mult_type"] = "direct" if tol["mult_type"] == "fft" else "fft"
    elif what == "split":
        tol["fft_options"]["matrix_split"] = not tol["fft_options"]["matrix_split"]
    elif what == "fft":
        tol["fft_options"]["library"] = "NumPy" if tol["fft_options"]["library"] == "SciPy" else "SciPy"
    elif what == "tags":
        for x in req["mats"] + req["srcs"]:
            x["tag"] = x["tag"] + "_new"
    elif what == "resample":
        geo["data_resampling"].update(use_resample=True, resampling_factor=rng.choice([[2, 1, 1], [1, 2, 1], [1, 1, 2]]))
    elif what == "accuracy":
        tol["condition_options"]["check"] = not tol["condition_options"]["check"]
    elif what == "coupling":
        tol["solver_options"]["coupling"] = "segregated" if tol["solver_options"]["coupling"] == "direct" else "direct"
    return req, tol, geo


def twins(rng):
    """
    A problem, some problems which are nearly the same, and the order of their runs.
    """

    req = peec.random_problem(rng, size=[rng.randint(1, 3), rng.randint(1, 2), rng.randint(2, 3)], n_pts=rng.choice([0, 1]),
                              freq=rng.choice(["0.0", "1e4", "1e5", "1e5"]))
    tol = peec.tolerance(biot_savart=rng.choice(["face", "voxel"]), mult_type=rng.choice(["fft", "direct"]),
                         fft_options__matrix_split=rng.random() < 0.5)
    geo = {"data_resampling": {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]}}
    count = rng.randint(2, 4)
    todo = [(req, tol, geo)]
    while len(todo) < count:
        todo.append(vary(rng, *rng.choice(todo)))
    rng.shuffle(todo)
    doc = {}
    for (k, (req, tol, geo)) in enumerate(todo):
        doc["gk%d" % k] = {**peec.get_geometry(req), **geo}
        doc["pk%d" % k] = peec.get_problem(req)
        doc["tk%d" % k] = tol
    order = [rng.randrange(count) for _ in range(count + 2)]
    return {"doc": doc, "count": count, "order": order, "plot": rng.random() < 0.15}


def random_history(rng, opts):
    start = {"ga": rng.choice(["g1", "g2", "g1", "g2", "gx"]), "gb": rng.choice(["g1", "g2"]), "pa": rng.choice(["p1", "p2", "px"]), "pb": rng.choice(["p1", "p2"]),
             "ta": rng.choice(opts), "tb": rng.choice(opts)}
    doc = {"g": ["g1", "g2", "g1", "g2", "gx"], "p": ["p1", "p2", "p1", "p2", "px"], "t": opts}
    cont = dict(start)
    made = []
    hist = []
    size = rng.randint(6, 14)
    while len(hist) < size:
        vox = [k for k, x in enumerate(made) if x[0] == "V"]
        res = [k for k, x in enumerate(made) if x[0] in "VS"]
        op = rng.choice(["mesh", "edit", "edit", "solve", "solve", "solve", "solve", "plot", "spoil"])
        e = {"op": op, "obj": "", "to": "", "h": 0}
        if op == "mesh":
            e["obj"] = rng.choice(["ga", "gb"])
            if cont[e["obj"]] != "gx":
                made.append("V." + cont[e["obj"]])
        elif op == "edit":
            e["obj"] = rng.choice(list(cont))
            e["to"] = cont[e["obj"]] = rng.choice(doc[e["obj"][0]])
        elif op == "solve" and vox:
            e["h"] = rng.choice(vox) + 1
            (e["obj"], e["to"]) = (rng.choice(["pa", "pb"]), rng.choice(["ta", "tb"]))
            (g, p, t) = (made[e["h"]-1][2:], cont[e["obj"]], cont[e["to"]])
            if not (p == "px" or (p == "p2" and g == "g2") or t in ["tx", "tlib"]):
                made.append("S.%s.%s.%s" % (g, p, t))
        elif op == "plot" and res:
            e["h"] = rng.choice(res) + 1
            made.append("W." + made[e["h"]-1])
        elif op == "spoil" and made:
            e["h"] = rng.randint(1, len(made))
            made[e["h"]-1] = "spoiled"
        else:
            continue
        hist.append(e)
    return {"start": start, "hist": hist}


def run(check):
    has_lib = importlib.util.find_spec("pydiso") is not None or importlib.util.find_spec("pypardiso") is not None
    cfg = "INIT Init\nNEXT Next\nINVARIANT RunsInv\nPROPERTY RunsStep\n"
    check.model("RunsMC", cfg, "all histories of a caller with up to three results", deadlock=True, workers=8)
    res = check.model("RunsMC", "INIT PairInit\nNEXT PairNext\n", "ordered pairs of runs with edits between", workers=8)
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    opts = [x for x in documents() if x[0] == "t" and not (x == "tlib" and has_lib)]
    if has_lib:
        fam = [x for x in fam if '"tlib"' not in json.dumps(x)]
    check.note("%d pairs of runs enumerated" % len(fam))

    # references
    terms = ["V.g1", "V.g2"]
    for t in [x for x in opts if x not in ["tx", "tlib"]]:
        terms += ["S.g1.p1." + t, "S.g1.p2." + t, "S.g2.p1." + t]
    name = check.scratch.file("ref")
    todo = [(x, k) for x in terms for k in ["data", "plot"]]
    proc = []
    for k in range(0, len(todo), 8):
        proc = [subprocess.Popen([sys.executable, os.path.abspath(__file__), x, kind, "%s_%s_%s" % (name, kind, x)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                for (x, kind) in todo[k:k+8]]
        for p in proc:
            p.wait(timeout=300)
    for (x, kind) in todo:
        with open("%s_%s_%s" % (name, kind, x), "rb") as fid:
            REF[x if kind == "data" else "W." + x] = pickle.load(fid)
    distinct = [x for x in REF if REF[x] is None]
    if distinct:
        check.note("no reference for " + ", ".join(distinct))

    rng = check.rng
    if check.quick:
        fam = rng.sample(fam, min(900, len(fam)))
    items = fam + [random_history(rng, opts) for _ in range(250 if check.quick else 3000)]
    check.judge("RunsTrace", execute(run_history, items), "pairs of runs and random histories", workers=8)
    records = execute(run_twins, [twins(rng) for _ in range(240 if check.quick else 3000)])
    check.judge("RunsTrace", [x for x in records if x["hist"]], "problems which are nearly the same", workers=8)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    data = reference(sys.argv[1]) if sys.argv[2] == "data" else reference_plot(sys.argv[1])
    with open(sys.argv[3], "wb") as fid:
        pickle.dump(data, fid)
