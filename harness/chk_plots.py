"""
Plots of the viewer and the plotter: selection and lifecycle (W03), content (W04).
"""

import contextlib
import copy
import json
import math
import os
import pickle
import shutil
import tempfile

import peec
from common import cplx, dec, execute

NO_REC = {"framework": "", "text": [], "title": "", "drawn": [], "lines": [], "bars": []}

OPTIONS_3D = {
    "plot_clip": {"clip_plot": False, "clip_invert": False, "clip_axis": "x", "clip_value": 0.0},
    "plot_theme": {
        "text_color": "black", "title_font": 10, "colorbar_font": 12, "colorbar_size": 5, "colorbar_plot": True,
        "background_color": "white", "axis_add": True, "axis_size": 2,
    },
    "plot_view": {
        "grid_plot": True, "grid_thickness": 1.0, "grid_color": "gray", "grid_opacity": 0.1,
        "geom_plot": True, "geom_thickness": 1.0, "geom_color": "black", "geom_opacity": 0.5,
        "point_plot": True, "point_color": "cyan", "point_size": 10.0, "point_opacity": 0.5,
        "camera_roll": None, "camera_azimuth": None, "camera_elevation": None,
    },
}
OPTIONS_2D = {"style": "default", "legend": "best", "font": 12}
WINDOW = {"show_menu": True, "image_size": [400, 300], "window_size": [400, 300], "notebook_size": [400, 300]}


def num_or_none(x):
    return [float(v) for v in x] if x else None


def get_plot(x):
    """
    Plot definition of the implementation.
    """

    two = x["framework"] == "matplotlib"
    opt = copy.deepcopy(OPTIONS_2D if two else OPTIONS_3D)
    if not two:
        opt["plot_view"].update({"grid_plot": x["grid"], "geom_plot": x["geom"], "point_plot": x["point"]})
        if x["clip"]:
            # a clip plane is interactive: the object given to the plot is complete
            opt["plot_clip"].update({"clip_plot": True, "clip_axis": x["clip"], "clip_invert": x["invert"], "clip_value": float(x["clipval"])})
    layout = x["layout"]
    title = x["title"]
    if layout == "convergence":
        data = {"color_active": "red", "color_reactive": "blue", "marker": 2.0, "width": 1.0}
    elif layout == "residuum":
        data = {"bar_color": "red", "edge_color": "black", "tol_bins": 0.1, "n_bins": 8}
    elif layout in ["domain", "graph"]:
        data = {"title": title, "colormap": "viridis", "opacity": 0.5}
    elif layout == "mesh":
        data = {"title": title, "color_voxel": "red", "color_reference": "blue", "opacity_voxel": 0.5, "opacity_reference": 0.5}
    elif layout == "material":
        names = ["color_electric", "color_magnetic", "color_electromagnetic", "color_current_source", "color_voltage_source"]
        data = {"title": title, **dict(zip(names, x["colors"]))}
    else:
        data = {"title": title, "legend": "legend", "var": x["var"], "log": x["log"], "color_lim": num_or_none(x["clim"]),
                "filter_lim": num_or_none(x["filter"]), "clamp_lim": num_or_none(x["clamp"]),
                "scale": float(x["scale"]), "point_size": 10.0, "phase": 2*math.pi*x["turn"][0]/x["turn"][1],
                "arrow_threshold": float(x["thr"]), "arrow_scale": float(x["arrow"])}
    return {"framework": x["framework"], "layout": layout, "title": title,
            "data_window": copy.deepcopy(WINDOW), "data_options": opt, "data_plot": data}


PLOT = {"tag": "a", "framework": "pyvista", "title": "title a", "works": True, "layout": "domain", "var": "", "turn": [0, 1], "scale": "1.0",
        "filter": [], "clamp": [], "thr": "0.0", "arrow": "0.75", "colors": ["red", "green", "blue", "yellow", "gray"],
        "grid": True, "geom": True, "point": True, "clip": "", "invert": False, "clipval": "0.0", "clim": [], "log": False}


# ----------------------------------------------------------------------------
# execution
# ----------------------------------------------------------------------------

@contextlib.contextmanager
def scratch():
    """
    Scratch directory which is the working directory.
    """

    old = os.getcwd()
    path = tempfile.mkdtemp(prefix="pypeec_verif_")
    os.chdir(path)
    try:
        yield path
    finally:
        os.chdir(old)
        shutil.rmtree(path, ignore_errors=True)


def call(req, data):
    """
    Run the viewer or the plotter with the stand-ins for the windows.
    """

    import recorder
    os.environ["QT_QPA_PLATFORM"] = "offscreen"
    recorder.install()
    import matplotlib
    import matplotlib.pyplot as plt
    from pypeec import main

    if req["mode"] in ["qt", ""]:
        recorder.install_qt()
    else:
        matplotlib.use("Agg")
    recorder.reset()
    plt.close("all")

    plots = {x["tag"]: get_plot(x) for x in req["plots"]}
    sel = lambda x: None if x["all"] else list(x["list"])  # noqa: E731
    opt = lambda x: {"": None, "empty": ""}.get(x, x)  # noqa: E731
    kwargs = {"tag_plot": sel(req["selplot"]), "plot_mode": opt(req["mode"]), "folder": opt(req["folder"]), "name": opt(req["name"])}
    if req["kind"] == "plotter":
        kwargs["tag_sweep"] = sel(req["selsweep"])
    if len(json.dumps(req)) % 2:
        # a missing option is the default value
        kwargs = {k: v for k, v in kwargs.items() if v is not None}

    obs = {"ok": True, "err": "", "files": [], "shown": [], "left": 0}
    with scratch() as path:
        if req["folder"] not in ["", "empty"]:
            os.makedirs(req["folder"])
        try:
            (main.run_viewer_data if req["kind"] == "viewer" else main.run_plotter_data)(data, plots, **kwargs)
        except Exception as ex:  # noqa: BLE001
            obs["ok"] = False
            obs["err"] = type(ex).__name__ + ": " + str(ex)[:100]
        figs = [plt.figure(k) for k in plt.get_fignums()]
        obs["shown"] = list(recorder.STATE["shown"])
        if req["mode"] in ["qt", "nb", ""] and obs["ok"]:
            obs["shown"] += [recorder.figure_record(x) for x in figs]
        obs["left"] = len(recorder.STATE["open"]) + len(figs)
        plt.close("all")
        obs["files"] = recorder.collect(path)
    for item in obs["files"]:
        item["rec"] = item["rec"] or NO_REC
    return obs


# ----------------------------------------------------------------------------
# selection (W03)
# ----------------------------------------------------------------------------

SMALL = {
    "n": [2, 1, 1], "d": ["1e-3", "1e-3", "1e-3"], "c": ["0.0", "0.0", "0.0"], "dom": {"a": [0], "b": [1]},
    "mats": [{"tag": "m", "domains": ["a", "b"], "type": "electric", "orient": "isotropic", "var": "lumped",
              "val": {"rho_re": "1e-4", "rho_im": "0.0"}, "given": True}],
    "srcs": [{"tag": "v", "domains": ["a"], "type": "voltage", "var": "lumped",
              "val": {"V_re": "1.0", "V_im": "0.0", "Z_re": "1.0", "Z_im": "0.0"}, "given": True}],
    "freq": "0.0", "pts": [["0.01", "0.0", "0.0"]], "field": "face",
}


def make_small(_):
    """
    Structure and solution with the given sweeps (pickled).
    """

    from pypeec import main

    voxel = peec.get_voxel(SMALL)
    problem = peec.get_problem(SMALL)
    out = {}
    for tags in [("s1",), ("s2", "s1"), ("s", "s_a"), ("s_a", "s", "t")]:
        param = problem["sweep_solver"]["sim"]
        data = main.run_solver_data(voxel, {**problem, "sweep_solver": {t: copy.deepcopy(param) for t in tags}}, peec.tolerance())
        out[" ".join(tags)] = data
    return pickle.dumps((voxel, out))


BLOB = []


def complete(req):
    """
    Full plots for the plots of a selection request.
    """

    plots = []
    for x in req["plots"]:
        if x["framework"] == "matplotlib":
            extra = {"layout": "convergence"}
        elif req["kind"] == "viewer":
            extra = {"layout": "domain"}
        else:
            extra = {"layout": "norm_voxel", "var": "J_c" if x["works"] else "none"}
        plots.append({**PLOT, **extra, **x})
    return {**req, "plots": plots}


def run_selection(req):
    (voxel, solutions) = pickle.loads(BLOB[0])
    data = voxel if req["kind"] == "viewer" else solutions[" ".join(req["sweeps"])]
    return {"req": req, "data": {}, "content": False, "obs": call(req, data)}


def collides(req):
    """
    Two selected plots with the same joined tag.
    """

    if req["kind"] == "viewer":
        return False
    tags = [x["tag"] for x in req["plots"]]
    plots = tags if req["selplot"]["all"] else set(req["selplot"]["list"])
    sweeps = req["sweeps"] if req["selsweep"]["all"] else set(req["selsweep"]["list"])
    keys = [s + "_" + p for s in sweeps for p in plots]
    return len(set(keys)) < len(keys)


def random_selection(rng):
    kind = rng.choice(["viewer", "plotter", "plotter"])
    tags = rng.sample(["a", "b", "c", "a_b", "b_a", "x.y", "10", "A", "s", "s1", "s2_s1", "s_t", "t_s_a", "s1_a"], rng.randint(1, 4))
    plots = []
    for t in tags:
        two = kind == "plotter" and rng.random() < 0.4
        works = kind == "viewer" or two or rng.random() < 0.93
        plots.append({"tag": t, "framework": "matplotlib" if two else "pyvista", "title": "plot " + t, "works": works})
    sweeps = [] if kind == "viewer" else rng.choice([["s1"], ["s2", "s1"], ["s", "s_a"], ["s_a", "s", "t"]])

    def sel(pool):
        if rng.random() < 0.4:
            return {"all": True, "list": []}
        # unknown tags, also those which are nearly known
        pool = list(pool)
        bad = [x for x in ["unknown", pool[0][0], pool[0][:-1], pool[-1] + "_", pool[-1].swapcase(), "_", ""] if x not in pool]
        pool += [rng.choice(bad)] if rng.random() < 0.15 else []
        return {"all": False, "list": [rng.choice(pool) for _ in range(rng.randint(0, 4))]}

    req = {"kind": kind, "plots": plots, "sweeps": sweeps, "selplot": sel(tags), "selsweep": sel(sweeps) if sweeps else {"all": True, "list": []},
           "mode": rng.choice(["save", "save", "save", "debug", "qt", "nb", ""]),
           "folder": rng.choice(["", "", "out", "out/deep"]), "name": rng.choice(["", "pre", "a_b"])}
    return req


def run_w03(check):
    res = check.model("PlotsMC", "INIT MCInit\nNEXT MCNext\nINVARIANT PlotsInv\n", "all selections, modes, folders and names of small sets of plots",
                      deadlock=True, workers=8, need=["Draw", "Finish"], env={"DEEP": "0" if check.quick else "1"})
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    check.note("%d requests enumerated" % len(fam))
    BLOB[:] = execute(make_small, [0])
    rng = check.rng
    if check.quick:
        fam = rng.sample(fam, min(1500, len(fam)))
    reqs = [complete(x) for x in fam]
    check.judge("PlotsTrace", execute(run_selection, reqs), "requests of the exhaustive family", workers=8)
    reqs = []
    while len(reqs) < (700 if check.quick else 6000):
        req = random_selection(rng)
        if not collides(req):
            reqs.append(complete(req))
    check.judge("PlotsTrace", execute(run_selection, reqs), "random plots and selections", workers=8)
    # the joined tags of two plots are the same (recorded finding)
    req = {"kind": "plotter", "sweeps": ["s", "s_a"], "selplot": {"all": True, "list": []}, "selsweep": {"all": True, "list": []},
           "mode": "save", "folder": "", "name": "",
           "plots": [{"tag": t, "framework": "pyvista", "title": t, "works": True} for t in ["b", "a_b"]]}
    check.judge("PlotsTrace", execute(run_selection, [complete(req)]), "same joined tags",
                key=lambda rec, clause: clause + " / sweeps s, s_a / plots b, a_b")


# ----------------------------------------------------------------------------
# content (W04)
# ----------------------------------------------------------------------------

def locate(data, obs):
    """
    Add the voxel (or the point) of every drawn item.
    """

    import numpy as np

    n = data["n"]
    d = np.array([float(x) for x in data["d"]])
    o = np.array([float(x) for x in data["c"]]) - d*np.array(n)/2
    pts = np.array([[float(x) for x in p] for p in data["pts"]]).reshape(-1, 3)
    for item in obs["files"]:
        for obj in item["rec"]["drawn"]:
            pos = np.array([[float(x) for x in p] for p in obj["pos"]]).reshape(-1, 3)
            obj["vox"] = []
            obj["pt"] = []
            for p in pos:
                k = np.floor((p-o)/d).astype(int) if np.all(np.isfinite(p)) else np.array([-1, -1, -1])
                ok = bool(np.all(k >= 0) and np.all(k < n))
                obj["vox"].append(int(k[0]+n[0]*(k[1]+n[1]*k[2])) if ok else -1)
                obj["pt"].append(int(np.argmin(np.sum((pts-p)**2, axis=1)))+1 if len(pts) and np.all(np.isfinite(p)) else 0)


def get_data(n, d, c, pts, **kwargs):
    return {"n": [int(x) for x in n], "d": [dec(x) for x in d], "c": [dec(x) for x in c], "pts": [[dec(x) for x in p] for p in pts],
            "dom": [], "comp": [], "vc": [], "vm": [], "srcc": [], "srcv": [], "reference": [], "sweeps": {}, **kwargs}


def rand_view(rng):
    return {"grid": rng.random() < 0.3, "geom": rng.random() < 0.5, "point": rng.random() < 0.5, "clip": rng.choice(["", "", "", "x", "y", "z"]),
            "invert": rng.random() < 0.5, "clipval": rng.choice(["0.0", "0.25", "-1.5"])}


def run_viewer(item):
    """
    Structure, and all the plots of the viewer.
    """

    import random

    from pypeec import main

    rng = random.Random(item["seed"])
    if item["kind"] == "voxel":
        req = peec.random_problem(rng, size=[rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 4)], n_pts=rng.choice([0, 1, 3]))
        voxel = peec.get_voxel(req)
    else:
        voxel = main.run_mesher_data(shape_geometry(rng))
    geom = voxel["data_geom"]
    ref = geom["reference"]
    data = get_data(geom["n"], geom["d"], geom["c"], geom["pts_cloud"],
                    dom=[[int(i) for i in x] for x in geom["domain_def"].values()],
                    comp=[[int(i) for i in x] for x in geom["graph_def"]],
                    reference=[] if ref is None else [[dec(x) for x in p] for p in ref["points"]])
    plots = []
    for k, layout in enumerate(["domain", "graph", "mesh"]):
        plots.append({**PLOT, "tag": "p%d" % k, "title": "t%d" % k, "layout": layout, **rand_view(rng)})
    rng.shuffle(plots)
    req = {"kind": "viewer", "plots": plots, "sweeps": [], "selplot": {"all": True, "list": []},
           "selsweep": {"all": True, "list": []}, "mode": "save", "folder": "", "name": "x"}
    obs = call(req, voxel)
    locate(data, obs)
    return {"req": req, "data": data, "content": True, "obs": obs}


def shape_geometry(rng):
    """
    Geometry with shapes (the structure has a reference).
    """

    layers = [{"n_layer": rng.randint(1, 2), "tag_layer": "l%d" % k} for k in range(rng.randint(1, 2))]
    shapes = {}
    for t in ["a", "b"][:rng.randint(1, 2)]:
        x = rng.uniform(0.0, 1.0) + (3.0 if t == "b" else 0.0)
        shapes["dom_" + t] = [{
            "shape_layer": rng.sample([x["tag_layer"] for x in layers], rng.randint(1, len(layers))),
            "shape_operation": "add", "shape_type": "polygon",
            "shape_data": {"buffer": None, "coord_shell": [[x, 0.0], [x+2.0, 0.0], [x+2.0, rng.uniform(1.0, 3.0)], [x, 2.0]], "coord_holes": []},
        }]
    return {
        "mesh_type": "shape",
        "data_voxelize": {
            "param": {"dx": 0.5, "dy": 0.75, "dz": 0.25, "cz": rng.choice([0.0, 1.0]), "simplify": None, "construct": None,
                      "xy_min": [-0.5, -0.5], "xy_max": rng.choice([[6.0, 4.0], [7.0, 3.25]])},
            "layer_stack": layers, "geometry_shape": shapes,
        },
        "data_point": {"check_cloud": False, "full_cloud": False, "pts_cloud": [[1.0, 2.0, 30.0]] if rng.random() < 0.5 else []},
        "data_resampling": {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": False, "resolve_random": False, "conflict_rules": []},
        "data_integrity": {"domain_connected": {}, "domain_adjacent": {}},
    }


def run_plotter(item):
    """
    Solution with random fields, and random plots.
    """

    import random

    import numpy as np
    from pypeec import main

    rng = random.Random(item["seed"])
    tags = rng.choice([["s"], ["s", "t"]])
    tol = peec.tolerance(solver_options__tolerance_options__ignore_status=True, condition_options__check=False)
    while True:
        req = peec.random_problem(rng, size=[rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)], n_pts=rng.choice([0, 1, 3]), magnetic=rng.random() < 0.6)
        # a distributed material without voxels is not specified
        if all(any(req["dom"][t] for t in m["domains"]) for m in req["mats"]):
            break
    voxel = peec.get_voxel(req)
    problem = peec.get_problem(req)
    param = problem["sweep_solver"]["sim"]
    sol = main.run_solver_data(voxel, {**problem, "sweep_solver": {t: copy.deepcopy(param) for t in tags}}, tol)

    # random fields
    gen = np.random.default_rng(item["seed"])

    def rand(shape, real=False):
        val = gen.uniform(-2.0, 2.0, shape) + (0.0 if real else 1j*gen.uniform(-2.0, 2.0, shape))
        return val

    sweeps = {}
    for t in tags:
        out = {}
        for name, x in sol["data_sweep"][t]["var"].items():
            real = not np.iscomplexobj(x["var"])
            x["var"] = rand(np.shape(x["var"]), real)
            vector = x["cat"].startswith("vector") or x["cat"] == "cloud"
            out[name] = {"cat": x["cat"], "vector": vector,
                         "val": [[cplx(v) for v in y] if vector else cplx(y) for y in x["var"]]}
        tmp = sol["data_sweep"][t]
        vec = [complex(v) for v in rand(rng.randint(1, 6))]
        vec[-1] = complex(rand(()))
        tmp["conv"] = {"power_init": complex(rand(())), "power_final": rng.choice([vec[-1], vec[-1]+1e-3]), "power_vec": vec}
        tmp["res"] = rand(np.shape(tmp["res"]))*10.0**gen.uniform(-8, 0, np.shape(tmp["res"]))
        if rng.random() < 0.3:
            tmp["res"][0] = 0.0
        sweeps[t] = {"var": out, "res": [cplx(v) for v in tmp["res"]],
                     "conv": {"init": cplx(tmp["conv"]["power_init"]), "final": cplx(tmp["conv"]["power_final"]), "vec": [cplx(v) for v in vec]}}
    init = sol["data_init"]
    data = get_data(init["n"], init["d"], init["c"], init["pts_cloud"], sweeps=sweeps,
                    **{a: [int(i) for i in init[b]] for (a, b) in [("vc", "idx_vc"), ("vm", "idx_vm"), ("srcc", "idx_src_c"), ("srcv", "idx_src_v")]})

    plots = []
    names = sweeps[tags[0]]["var"]
    for k in range(rng.randint(4, 7)):
        p = {**PLOT, "tag": "p%d" % k, "title": "t%d" % k, **rand_view(rng)}
        kind = rng.choice(["material", "convergence", "residuum"] + 7*["field"])
        if kind in ["convergence", "residuum"]:
            p.update({"layout": kind, "framework": "matplotlib"})
        elif kind == "material":
            p.update({"layout": kind, "colors": rng.sample(["red", "green", "blue", "yellow", "gray", "orange"], 5)})
        else:
            var = rng.choice(list(names))
            f = names[var]
            where = "point" if f["cat"] == "cloud" else "voxel"
            how = rng.choice(["norm", "arrow", "arrow"] if f["vector"] else ["norm", "phasor"])
            q = rng.choice([1, 2, 3, 4, 5, 8, 12])
            p.update({"layout": how + "_" + where, "var": var, "turn": [rng.randint(-q, 2*q), q],
                      "scale": rng.choice(["1.0", "1.0", "1e-3", "250.0"])})
            s = float(p["scale"])
            lim = lambda: [dec(s*rng.uniform(-1.0, 0.8)), dec(s*rng.uniform(0.8, 2.5))]  # noqa: E731
            extra = rng.choice([[], [], ["filter"], ["clamp"], ["thr"], ["filter", "clamp"], ["clamp", "thr"]])
            for x in ["filter", "clamp"]:
                if x in extra:
                    p[x] = lim()
            if "thr" in extra and how == "arrow":
                p["thr"] = rng.choice(["0.3", "0.6", "0.9"])
            if rng.random() < 0.3:
                p["clim"] = lim()
            p["log"] = rng.random() < 0.2
            if how == "arrow":
                p["arrow"] = rng.choice(["0.75", "1.5", "0.2"])
        plots.append(p)
    req = {"kind": "plotter", "plots": plots, "sweeps": tags, "selplot": {"all": True, "list": []},
           "selsweep": {"all": True, "list": []}, "mode": "save", "folder": "", "name": "x"}
    obs = call(req, sol)
    locate(data, obs)
    return {"req": req, "data": data, "content": True, "obs": obs}


def run_w04(check):
    rng = check.rng
    n = 60 if check.quick else 400
    items = [{"kind": rng.choice(["voxel", "voxel", "shape"]), "seed": rng.randrange(10**9)} for _ in range(n)]
    check.judge("PlotsTrace", execute(run_viewer, items), "plots of random structures", workers=8)
    n = 160 if check.quick else 900
    items = [{"seed": rng.randrange(10**9)} for _ in range(n)]
    check.judge("PlotsTrace", execute(run_plotter, items), "plots of solutions with random fields", workers=8)


def run(check):
    {"W03": run_w03, "W04": run_w04}[check.pid](check)
