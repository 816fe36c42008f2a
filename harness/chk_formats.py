"""
Malformed inputs are refused before the computation (W02).
"""

import copy
import json
import os
import sys

import chk_plots
import peec
from common import dec, execute


class Any:
    """
    Part of a document which is not looked at.
    """

    def __init__(self, val):
        self.val = val


def to_node(x):
    if isinstance(x, Any):
        return {"t": "any"}
    if x is None:
        return {"t": "null"}
    if isinstance(x, bool):
        return {"t": "bool"}
    if isinstance(x, int):
        return {"t": "int", "v": x}
    if isinstance(x, float):
        return {"t": "num", "v": dec(x)}
    if isinstance(x, str):
        return {"t": "text", "v": x}
    if isinstance(x, list):
        return {"t": "arr", "v": [to_node(v) for v in x]}
    return {"t": "obj", "k": list(x), "v": [to_node(v) for v in x.values()]}


NEW = {"null": None, "bool": True, "int": 2, "zero": 0, "minus": -1, "num": 2.5, "whole": 2.0, "zeronum": 0.0, "negative": -0.5,
       "text": "word", "digits": "2", "blank": "", "empty": [], "object": {}}


def deviate(x, path, op):
    """
    Copy of a document with a deviation (positions of the children, from one).
    """

    if op in ["drop", "copy"] and len(path) == 1:
        if isinstance(x, dict):
            key = list(x)[path[0]-1]
            return {k: v for k, v in x.items() if k != key}
        out = list(x)
        if op == "drop":
            del out[path[0]-1]
        else:
            out.append(copy.deepcopy(out[path[0]-1]))
        return out
    if not path:
        if op == "extra":
            return {**x, "extra": "word"}
        return copy.deepcopy(NEW[op])
    if isinstance(x, dict):
        key = list(x)[path[0]-1]
        return {k: (deviate(v, path[1:], op) if k == key else v) for k, v in x.items()}
    return [deviate(v, path[1:], op) if k == path[0]-1 else v for k, v in enumerate(x)]


def paths(x):
    out = [[]]
    kids = list(x.values()) if isinstance(x, dict) else (x if isinstance(x, list) else [])
    for k, v in enumerate(kids):
        out += [[k+1] + p for p in paths(v)]
    return out


def at(x, path):
    for k in path:
        x = list(x.values())[k-1] if isinstance(x, dict) else x[k-1]
    return x


def final(x, arrays):
    """
    Input of the implementation (optionally with NumPy arrays and numbers).
    """

    import numpy as np

    if isinstance(x, Any):
        return x.val
    if isinstance(x, dict):
        return {k: final(v, arrays) for k, v in x.items()}
    if isinstance(x, list):
        if arrays and x and all(type(v) is float for v in x):
            return np.array(x, dtype=float)
        if arrays and x and all(type(v) is int for v in x):
            return np.array(x, dtype=np.int64)
        return [final(v, arrays) for v in x]
    if arrays and type(x) is float:
        return np.float64(x)
    if arrays and type(x) is int:
        return np.int64(x)
    return x


# ----------------------------------------------------------------------------
# base documents
# ----------------------------------------------------------------------------

def get_bases():
    tail = {
        "data_point": {"check_cloud": False, "full_cloud": True, "pts_cloud": [[1.0, 2.0, 30.0], [0.0, 1.5, -20.0]]},
        "data_resampling": {"use_reduce": False, "use_resample": True, "resampling_factor": [1, 2, 1]},
        "data_conflict": {"resolve_rules": True, "resolve_random": False, "conflict_rules": [{"domain_resolve": ["a"], "domain_keep": ["b", "a"]}]},
        "data_integrity": {"domain_connected": {"x": {"domain_group": [["a"], ["b"]], "connected": True}},
                           "domain_adjacent": {"y": {"domain_group": [["a", "b"]], "connected": False}}},
    }
    none = {
        "data_point": {"check_cloud": True, "full_cloud": False, "pts_cloud": []},
        "data_resampling": {"use_reduce": True, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": False, "resolve_random": True, "conflict_rules": []},
        "data_integrity": {"domain_connected": {}, "domain_adjacent": {}},
    }
    out = []

    def add(kind, doc):
        out.append({"kind": kind, "doc": doc})

    add("geometry", {"mesh_type": "voxel", "data_voxelize": {
        "param": {"n": [2, 1, 1], "d": [1.0, 0.5, 1.0], "c": [0.0, -1.0, 0.0]}, "domain_index": {"a": [0], "b": [1], "e": []}}, **tail})
    pad = {"shape_layer": ["l1"], "shape_operation": "add", "shape_type": "pad", "shape_data": {"diameter": 1.0, "coord": [[0.0, 0.0]]}}
    trace = {"shape_layer": ["l1", "l2"], "shape_operation": "sub", "shape_type": "trace", "shape_data": {"width": 0.5, "coord": [[0.0, 0.0], [1.0, 2.0]]}}
    poly = {"shape_layer": ["l2"], "shape_operation": "add", "shape_type": "polygon", "shape_data": {
        "buffer": 0.25, "coord_shell": [[0.0, 0.0], [3.0, 0.0], [0.0, 3.0]], "coord_holes": [[[0.5, 0.5], [1.0, 0.5], [0.5, 1.0]]]}}
    layers = [{"n_layer": 1, "tag_layer": "l1"}, {"n_layer": 2, "tag_layer": "l2"}]
    add("geometry", {"mesh_type": "shape", "data_voxelize": {
        "param": {"dx": 0.5, "dy": 0.5, "dz": 0.5, "cz": 0.0, "simplify": 0.01, "construct": 0.01, "xy_min": [-1.0, -1.0], "xy_max": [4.0, 4.0]},
        "layer_stack": layers, "geometry_shape": {"a": [pad, trace], "b": [poly]}}, **tail})
    add("geometry", {"mesh_type": "shape", "data_voxelize": {
        "param": {"dx": 0.5, "dy": 0.5, "dz": 0.5, "cz": None, "simplify": None, "construct": None, "xy_min": None, "xy_max": None},
        "layer_stack": layers, "geometry_shape": {"a": [pad], "b": [{**poly, "shape_data": {**poly["shape_data"], "buffer": None, "coord_holes": []}}]}}, **none})
    add("geometry", {"mesh_type": "png", "data_voxelize": {
        "param": {"d": [1.0, 1.0, 0.5], "c": [0.0, 0.0, 0.0], "size": [2, 2]}, "domain_color": {"a": [[255, 0, 0, 255]], "b": [[0, 0, 0, 255], [0, 1, 2, 3]]},
        "layer_stack": [{"n_layer": 1, "filename_list": ["no_such_file.png"]}]}, **none})
    add("geometry", {"mesh_type": "stl", "data_voxelize": {
        "param": {"d": [1.0, 1.0, 0.5], "xyz_min": [0.0, 0.0, 0.0], "xyz_max": None},
        "domain_stl": {"a": [{"scale": 1.0, "offset": [0.0, 0.0, 1.0], "filename": "no_such_file.stl"}]}}, **none})
    add("problem", {
        "material_def": {"m": {"domain_list": ["a", "b"], "material_type": "electric", "orientation_type": "isotropic", "var_type": "lumped"},
                         "k": {"domain_list": ["c"], "material_type": "magnetic", "orientation_type": "anisotropic", "var_type": "distributed"}},
        "source_def": {"i": {"domain_list": ["a"], "source_type": "current", "var_type": "lumped"},
                       "v": {"domain_list": ["b"], "source_type": "voltage", "var_type": "distributed"}},
        "sweep_solver": {
            "s": {"init": None, "param": {"freq": 0.0,
                  "material_val": {"m": {"rho_re": 1.0, "rho_im": 0.0}, "k": {"chi_re": [[1.0, 1.0, 1.0]], "chi_im": [[0.0, 0.0, 0.0]]}},
                  "source_val": {"i": {"I_re": 1.0, "I_im": 0.0, "Y_re": 1.0, "Y_im": 0.0}, "v": {"V_re": [1.0], "V_im": [0.0], "Z_re": [1.0], "Z_im": [0.0]}}}},
            "t": {"init": "s", "param": {"freq": 50.0, "material_val": {}, "source_val": {}}}}})
    tol = peec.tolerance()
    add("tolerance", tol)
    tol = peec.tolerance(biot_savart="voxel", mult_type="direct", fft_options__fftw_timeout=None, fft_options__fftw_byte_align=None,
                         factorization_options__pyamg_options__krylov="fgmres", factorization_options__pardiso_options__thread_mkl=None,
                         solver_options__coupling="segregated", parallel_sweep__n_jobs=-1, parallel_sweep__n_threads=1)
    add("tolerance", tol)
    for layout in ["domain", "graph", "mesh"]:
        add("viewer", {"a": chk_plots.get_plot({**chk_plots.PLOT, "layout": layout}), "b": chk_plots.get_plot({**chk_plots.PLOT, "tag": "b"})})
    clean = {"convergence": "matplotlib", "residuum": "matplotlib"}
    for layout in ["material", "norm_voxel", "phasor_voxel", "arrow_point", "convergence", "residuum"]:
        doc = chk_plots.get_plot({**chk_plots.PLOT, "layout": layout, "framework": clean.get(layout, "pyvista"), "var": "V_c" if "voxel" in layout else "H_p",
                                  "filter": ["0.0", "1.0"] if layout == "norm_voxel" else []})
        if layout == "norm_voxel":
            doc["data_plot"] = {k: v for k, v in doc["data_plot"].items() if k not in ["phase", "arrow_threshold", "arrow_scale"]}
            doc["data_window"]["image_size"] = None
        if layout == "phasor_voxel":
            doc["data_plot"] = {k: v for k, v in doc["data_plot"].items() if k not in ["arrow_threshold", "arrow_scale"]}
            doc["data_options"]["plot_view"]["camera_roll"] = 10.0
        if layout == "arrow_point":
            doc["data_plot"] = {k: v for k, v in doc["data_plot"].items() if k not in ["point_size"]}
        add("plotter", {"a": doc})
    add("viewer_options", {"tag_plot": ["a", "b"], "plot_mode": "debug", "folder": "out", "name": "x"})
    add("viewer_options", {"tag_plot": None, "plot_mode": "save", "folder": None, "name": None})
    add("plotter_options", {"tag_plot": ["b"], "tag_sweep": ["s"], "plot_mode": "debug", "folder": "out", "name": "x"})
    add("plotter_options", {"tag_plot": [], "tag_sweep": None, "plot_mode": "save", "folder": None, "name": "y"})
    return out


STATE = {}


def get_state():
    """
    Valid inputs (made by the steps).
    """

    if not STATE:
        import recorder
        recorder.install()
        from pypeec import main
        from pypeec.run import mesher, plotter, solver, viewer  # noqa: F401
        STATE["voxel"] = peec.get_voxel(chk_plots.SMALL)
        problem = peec.get_problem(chk_plots.SMALL)
        STATE["problem"] = {**problem, "sweep_solver": {"s": problem["sweep_solver"]["sim"]}}
        STATE["solution"] = main.run_solver_data(STATE["voxel"], STATE["problem"], peec.tolerance())
    return STATE


def wrap(data):
    return {k: Any(v) for k, v in data.items()}


def bases():
    """
    All the base documents, those made by the steps included.
    """

    out = get_bases()
    state = get_state()
    out.append({"kind": "voxel_solver", "doc": wrap(state["voxel"])})
    out.append({"kind": "voxel_viewer", "doc": wrap(state["voxel"])})
    out.append({"kind": "solution", "doc": wrap(state["solution"])})
    return out


class Started(BaseException):
    pass


PARTS = [os.path.join("pypeec", x) + os.sep for x in ["lib_mesher", "lib_solver", "lib_matrix", "lib_plot"]]


def watch(frame, event, _):
    if event == "call" and frame.f_code.co_name != "<module>" and any(x in frame.f_code.co_filename for x in PARTS):
        raise Started


def run_doc(item):
    """
    Give a document to the step: refused, or the computation has started.
    """

    from pypeec import main

    state = get_state()
    base = bases()[item["base"]-1]
    doc = base["doc"]
    for e in item["dev"]:
        doc = deviate(doc, e["path"], e["op"])
    arg = final(doc, item["arrays"])
    plots = {t: chk_plots.get_plot({**chk_plots.PLOT, "tag": t}) for t in ["a", "b"]}
    fields = {t: chk_plots.get_plot({**chk_plots.PLOT, "tag": t, "layout": "material"}) for t in ["a", "b"]}
    call = {
        "geometry": lambda: main.run_mesher_data(arg),
        "problem": lambda: main.run_solver_data(state["voxel"], arg, peec.tolerance()),
        "tolerance": lambda: main.run_solver_data(state["voxel"], state["problem"], arg),
        "viewer": lambda: main.run_viewer_data(state["voxel"], arg, plot_mode="debug"),
        "plotter": lambda: main.run_plotter_data(state["solution"], arg, plot_mode="debug"),
        "viewer_options": lambda: main.run_viewer_data(state["voxel"], plots, **arg),
        "plotter_options": lambda: main.run_plotter_data(state["solution"], fields, **arg),
        "voxel_solver": lambda: main.run_solver_data(arg, state["problem"], peec.tolerance()),
        "voxel_viewer": lambda: main.run_viewer_data(arg, plots, plot_mode="debug"),
        "solution": lambda: main.run_plotter_data(arg, fields, plot_mode="debug"),
    }[base["kind"]]
    obs = {"refused": False, "started": False, "err": ""}
    if not isinstance(arg, dict) and base["kind"].endswith("_options"):
        # the options are keywords
        return None
    try:
        sys.setprofile(watch)
        call()
        obs["err"] = "ended"
    except Started:
        obs["started"] = True
    except Exception as ex:  # noqa: BLE001
        obs["refused"] = True
        obs["err"] = type(ex).__name__ + ": " + str(ex)[:60]
    finally:
        sys.setprofile(None)
    return {"base": item["base"], "dev": item["dev"], "doc": to_node(doc), "arrays": item["arrays"], "obs": obs}


def make_bases(_):
    return [{"kind": x["kind"], "doc": to_node(x["doc"])} for x in bases()]


def random_deviations(rng, doc):
    """
    Several deviations (each path refers to the document after the previous ones).
    """

    out = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        all_paths = [p for p in paths(doc) if p]
        if not all_paths:
            break
        path = rng.choice(all_paths)
        here = at(doc, path)
        up = at(doc, path[:-1])
        ops = list(NEW) + ["drop"] + (["copy"] if isinstance(up, list) else []) + (["extra"] if isinstance(here, dict) and "extra" not in here else [])
        # changes which keep the type are more often well-formed
        if rng.random() < 0.6:
            same = [k for k, v in NEW.items() if type(v) is type(here)]
            ops = same + (["copy"] if isinstance(up, list) else []) or ops
        e = {"path": path, "op": rng.choice(ops)}
        doc = deviate(doc, e["path"], e["op"])
        out.append(e)
    return out


def run(check):
    nodes = execute(make_bases, [0])[0]
    name = check.scratch.file("bases.ndjson")
    with open(name, "w") as fid:
        for x in nodes:
            fid.write(json.dumps(x) + "\n")
    env = {"BASES": name}
    res = check.model("FormatsMC", "INIT Init\nNEXT Next\nINVARIANT FormatsInv\n", "all single deviations of the base documents",
                      env=env, deadlock=True, workers=8, need=["Alter", "Look"])
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    check.note("%d documents enumerated" % len(fam))
    rng = check.rng
    items = [{"base": x["base"], "dev": x["dev"], "arrays": arrays} for x in fam for arrays in [False, True]]
    if check.quick:
        items = [x for x in items if not x["arrays"]] + rng.sample([x for x in items if x["arrays"]], 1500)
    judge(check, items, "all single deviations", env)
    docs = [x["doc"] for x in get_bases()]
    items = []
    for _ in range(3000 if check.quick else 20000):
        k = rng.randrange(len(docs))
        items.append({"base": k+1, "dev": random_deviations(rng, docs[k]), "arrays": rng.random() < 0.3})
    judge(check, items, "random combined deviations", env)


def judge(check, items, what, env):
    recs = [x for x in execute(run_doc, items) if x is not None]
    for k in range(0, len(recs), 12000):
        check.judge("FormatsTrace", recs[k:k+12000], what, env=env, workers=8)
