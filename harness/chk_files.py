"""
Runs with files and from the command line (W01).
"""

import copy
import gzip
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import zipfile

import chk_formats
import chk_plots
import chk_runs
from common import execute

TABLE = ["geo.yaml", "geo.json", "geo.gz", "geo.txt", "vox.pck", "vox.json", "vox.gz", "vox.txt", "prob.yaml", "prob.json", "tol.yaml", "tol.gz",
         "sol.pck", "sol.json", "sol.gz", "sol.txt", "view.yaml", "view.json", "plot.yaml", "plot.json"]
DIRS = ["dir.pck", "dir.json"]

DOC = {}
REF = {}


def documents():
    """
    Contents of the documents (the STL and PNG files are in the folder of the run).
    """

    if DOC:
        return DOC
    doc = chk_runs.documents()
    DOC["geometry"] = {
        "g1": doc["g1"], "gx": doc["gx"],
        "gm": {**doc["g1"], "mesh_type": "unknown"},
        "g2": {**copy.deepcopy(doc["g1"]), "mesh_type": "shape", "data_voxelize": {
            "param": {"dx": 1e-3, "dy": 1e-3, "dz": 1e-3, "cz": 0.0, "simplify": None, "construct": None, "xy_min": None, "xy_max": None},
            "layer_stack": [{"n_layer": 1, "tag_layer": "l"}],
            "geometry_shape": {t: [{"shape_layer": ["l"], "shape_operation": "add", "shape_type": "polygon", "shape_data": {
                "buffer": None, "coord_holes": [], "coord_shell": [[k*1e-3, 0.0], [k*1e-3+1e-3, 0.0], [k*1e-3+1e-3, 1e-3], [k*1e-3, 1e-3]]}}]
                for k, t in enumerate(["src", "mid", "snk"])}}},
        "g3": {**copy.deepcopy(doc["g1"]), "mesh_type": "stl", "data_voxelize": {
            "param": {"d": [0.25, 0.25, 0.25], "xyz_min": None, "xyz_max": None},
            "domain_stl": {"box": [{"scale": 1.0, "offset": [0.0, 0.0, 1.0], "filename": "box.stl"}]}}},
        "g4": {**copy.deepcopy(doc["g1"]), "mesh_type": "png", "data_voxelize": {
            "param": {"d": [1e-3, 1e-3, 1e-3], "c": [0.0, 0.0, 0.0], "size": [3, 2]}, "domain_color": {"box": [[255, 0, 0, 255]]},
            "layer_stack": [{"n_layer": 2, "filename_list": ["image.png"]}]}},
    }
    for t in ["g3", "g4"]:
        DOC["geometry"][t]["data_conflict"]["conflict_rules"] = []
        DOC["geometry"][t]["data_integrity"] = {"domain_connected": {}, "domain_adjacent": {}}
    DOC["problem"] = {t: doc[t] for t in ["p1", "p2", "px"]}
    DOC["problem"]["pm"] = {**doc["p1"], "source_def": []}
    DOC["tolerance"] = {t: doc[t] for t in ["t1", "t5", "tx"]}
    DOC["viewer"] = {"w1": {t: chk_plots.get_plot({**chk_plots.PLOT, "tag": t, "title": t, "layout": k}) for t, k in [("a", "domain"), ("b", "mesh")]}}
    DOC["plotter"] = {"q1": {t: chk_plots.get_plot({**chk_plots.PLOT, "tag": t, "title": t, "layout": k, "framework": f})
                             for t, k, f in [("a", "material", "pyvista"), ("b", "residuum", "matplotlib")]}}
    DOC["viewer"]["wm"] = {t: {**x, "layout": "unknown"} for t, x in DOC["viewer"]["w1"].items()}
    DOC["plotter"]["qm"] = {t: {k: v for k, v in x.items() if k != "data_window"} for t, x in DOC["plotter"]["q1"].items()}
    return DOC


def prepare():
    """
    Files used by the documents, in the working directory.
    """

    import numpy as np
    import PIL.Image
    import pyvista

    pyvista.Cube(center=(0.5, 0.5, 0.5)).triangulate().save("box.stl")
    data = np.zeros((2, 3, 4), dtype=np.uint8)
    data[:, :2] = [255, 0, 0, 255]
    PIL.Image.fromarray(data, "RGBA").save("image.png")


def make_refs(_):
    """
    Results of the runs with data.
    """

    doc = documents()
    out = {}
    with chk_plots.scratch():
        prepare()
        for g in ["g1", "g2", "g3", "g4"]:
            out["voxel", (g,)] = chk_runs.mesh(doc["geometry"][g])
        for (g, p) in [("g1", "p1"), ("g1", "p2"), ("g2", "p1")]:
            for t in ["t1", "t5"]:
                out["solution", (g, p, t)] = chk_runs.solve(out["voxel", (g,)], doc["problem"][p], doc["tolerance"][t])
    # malformed results
    out["voxel", ("vm",)] = {k: v for k, v in out["voxel", ("g1",)].items() if k != "data_geom"}
    out["solution", ("sm",)] = {k: v for k, v in out["solution", ("g1", "p1", "t1")].items() if k != "data_sweep"}
    return pickle.dumps(out)




def write(name, content):
    """
    Write a content in a file (not with the implementation).
    """

    import scisave
    import yaml

    (kind, of) = (content["kind"], tuple(content["of"]))
    if kind == "none":
        if os.path.exists(name):
            os.remove(name)
        return
    if kind in ["voxel", "solution"]:
        scisave.write_data(name, REF[kind, of])
    elif kind == "cut":
        data = REF["voxel" if name.startswith("vox") else "solution", ("g1",) if name.startswith("vox") else ("g1", "p1", "t1")]
        scisave.write_data(name, data)
        size = os.path.getsize(name)
        with open(name, "rb+") as fid:
            fid.truncate(int(size*0.6))
    elif kind == "garbage":
        with open(name, "w") as fid:
            fid.write("{[ not, a file")
    else:
        doc = documents()[kind][of[0]]
        if name.endswith(".gz"):
            with gzip.open(name, "wt", encoding="utf-8") as fid:
                json.dump(doc, fid)
        else:
            with open(name, "w") as fid:
                text = json.dumps(doc)
                fid.write(text if name.endswith("json") else yaml.safe_dump(json.loads(text), sort_keys=False))


def plain(x):
    """
    Data with the types which are independent of the file format.
    """

    import numpy as np

    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.ndarray) and x.dtype.kind == "u":
        return x.astype(int)
    return x


def look(name, guess):
    """
    Content of an output file.
    """

    import scisave

    if not os.path.isfile(name):
        return {"kind": "none", "of": []}
    try:
        data = plain(scisave.load_data(name))
    except Exception:  # noqa: BLE001
        return {"kind": "garbage", "of": []}
    for key in [guess] + [x for x in REF if x != guess]:
        if key in REF and chk_runs.same(plain(REF[key]), data, False):
            return {"kind": key[0], "of": list(key[1])}
    return {"kind": "other", "of": []}


def tree():
    """
    Bytes of all the files and directories in the working directory.
    """

    out = {}
    for (root, dirs, names) in os.walk("."):
        for name in dirs:
            out[os.path.relpath(os.path.join(root, name), ".") + "/"] = b""
        for name in names:
            with open(os.path.join(root, name), "rb") as fid:
                out[os.path.relpath(os.path.join(root, name), ".")] = fid.read()
    return out


LONG = {"geometry": "--geometry", "voxel": "--voxel", "problem": "--problem", "tolerance": "--tolerance", "solution": "--solution",
        "viewer": "--viewer", "plotter": "--plotter"}
SHORT = {"geometry": "-ge", "voxel": "-vo", "problem": "-pr", "tolerance": "-to", "solution": "-so", "viewer": "-vi", "plotter": "-pl"}
FILES = {"mesher": ["geometry", "voxel"], "viewer": ["voxel", "viewer"], "solver": ["voxel", "problem", "tolerance", "solution"], "plotter": ["solution", "plotter"]}


def get_argv(e):
    short = e["via"] == "short"
    argv = ["-q"] if short else (["--quiet"] if e["via"] == "long" else [])
    argv.append(e["op"][:2] if short else e["op"])
    for x in FILES[e["op"]][::-1 if short else 1]:
        argv += [(SHORT if short else LONG)[x], e[x]]
    if e["op"] in ["viewer", "plotter"]:
        argv += ["-pm" if short else "--plot_mode", e["mode"]]
        if not e["tags"]["all"]:
            argv += ["-tp" if short else "--tag_plot", *e["tags"]["list"]]
        if e["op"] == "plotter" and not e["sweeps"]["all"]:
            argv += ["-ts" if short else "--tag_sweep", *e["sweeps"]["list"]]
        if e["folder"]:
            argv += ["-f" if short else "--folder", e["folder"]]
    return argv


def call(e):
    """
    Make a step, return the code.
    """

    import pypeec
    import recorder
    import matplotlib.pyplot as plt

    recorder.reset()
    plt.close("all")
    if e["op"] == "usage":
        if e["via"] == "script":
            return script(e["argv"])
        code = pypeec.run_arguments(e["argv"])
        return 0 if code is None else code
    if e["op"] == "extract":
        return extract(e)
    if e["via"] == "script":
        return script(get_argv(e), encoding="ascii" if e.get("ascii") else "utf8")
    if e["via"] in ["long", "short"]:
        code = pypeec.run_arguments(get_argv(e))
        return 0 if code is None else code
    kwargs = {}
    if e["op"] in ["viewer", "plotter"]:
        kwargs = {"tag_plot": None if e["tags"]["all"] else list(e["tags"]["list"]), "plot_mode": e["mode"], "folder": e["folder"] or None}
    if e["op"] == "plotter":
        kwargs["tag_sweep"] = None if e["sweeps"]["all"] else list(e["sweeps"]["list"])
    getattr(pypeec, "run_%s_file" % e["op"])(*[e[x] for x in FILES[e["op"]]], **kwargs)
    return 0


def script(argv, encoding="utf8"):
    """
    Command line in a new process.
    """

    env = dict(os.environ)
    env["PYTHONPATH"] = os.environ.get("VERIF_REPO", "/repo")
    env["PYTHONIOENCODING"] = encoding
    env["QT_QPA_PLATFORM"] = "offscreen"
    cmd = [sys.executable, "-c", "import pypeec; pypeec.run_script()", *argv]
    return subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200).returncode


def extract(e):
    """
    Extraction of an archive (given, missing, or damaged).
    """

    import contextlib
    import importlib.resources
    import pathlib
    import pypeec

    old = importlib.resources.path

    @contextlib.contextmanager
    def path(package, name):
        if not str(name).endswith(".zip"):
            with old(package, name) as out:
                yield out
            return
        yield pathlib.Path("../archive_%d/%s" % (os.getpid(), name)).resolve()

    folder = "../archive_%d" % os.getpid()
    os.makedirs(folder)
    if e["mode"] == "good":
        with zipfile.ZipFile(os.path.join(folder, e["argv"][0] + ".zip"), "w") as fid:
            fid.writestr("folder/file.txt", "content")
    elif e["mode"] == "damaged":
        with open(os.path.join(folder, e["argv"][0] + ".zip"), "w") as fid:
            fid.write("no archive")
    if e["mode"] != "real":
        importlib.resources.path = path
    try:
        return pypeec.run_arguments(e["argv"])
    finally:
        importlib.resources.path = old
        shutil.rmtree(os.path.abspath(folder))


def run_steps(item):
    import recorder
    os.environ["QT_QPA_PLATFORM"] = "offscreen"
    recorder.install()
    import matplotlib
    matplotlib.use("Agg")
    from pypeec.run import mesher, plotter, solver, viewer  # noqa: F401

    obs = []
    with chk_plots.scratch():
        prepare()
        os.makedirs("out")
        for name in DIRS:
            os.makedirs(name)
        first = tree()
        for e in item["steps"]:
            before = tree()
            rec = {"code": 0, "touched": [], "extra": [], "disk": {}, "watched": False, "started": False}
            if e["op"] == "put":
                write(e["file"], e["content"])
                obs.append(rec)
                continue
            rec["watched"] = e["op"] in FILES and e["via"] != "script"

            def watch(frame, event, _):
                if event == "call" and frame.f_code.co_name != "<module>" and any(x in frame.f_code.co_filename for x in chk_formats.PARTS):
                    rec["started"] = True
                    sys.setprofile(None)

            try:
                sys.setprofile(watch)
                rec["code"] = call(e)
            except SystemExit:
                rec["code"] = -1
            except Exception:  # noqa: BLE001
                rec["code"] = 1
            finally:
                sys.setprofile(None)
            rec["code"] = int(rec["code"])
            after = tree()
            for name in sorted(set(before) | set(after)):
                if before.get(name) != after.get(name):
                    rec["touched" if name in TABLE else "extra"].append(name)
            rec["disk"] = {"none": {"kind": "none", "of": []}}
            if e["op"] == "mesher" and e["voxel"] in TABLE:
                of = e["guess"] if "guess" in e else [x["content"]["of"][0] for x in item["steps"] if x["op"] == "put" and x["file"] == e["geometry"] and x["content"]["of"]]
                rec["disk"][e["voxel"]] = look(e["voxel"], ("voxel", tuple(of[-1:])))
            if e["op"] == "solver" and e["solution"] in TABLE:
                rec["disk"][e["solution"]] = look(e["solution"], None)
            for name in rec["extra"][:]:
                # screenshots are records of the plots
                if e["op"] in FILES and name in after and name not in before:
                    tag = os.path.basename(name)[:-4].split("_")[-1]
                    try:
                        data = json.loads(after[name])
                        if data["framework"] == "pyvista" and not any(tag in str(x) for x in [data["title"], *data["text"]]):
                            rec["extra"].append("wrong content " + name)
                    except Exception:  # noqa: BLE001
                        rec["extra"].append("no screenshot " + name)
            # each run starts without the screenshots of the previous ones (an identical rewrite would not be seen)
            for name in set(after) - set(TABLE) - set(first):
                if os.path.isfile(name):
                    os.remove(name)
            obs.append(rec)
    return {"steps": item["steps"], "obs": obs}


# ----------------------------------------------------------------------------
# random histories
# ----------------------------------------------------------------------------

BLANK = {"op": "", "via": "call", "geometry": "", "voxel": "", "problem": "", "tolerance": "", "solution": "", "viewer": "", "plotter": "",
         "tags": {"all": True, "list": []}, "sweeps": {"all": True, "list": []}, "mode": "debug", "folder": "", "file": "", "content": {"kind": "none", "of": []},
         "argv": [], "good": False}


def random_history(rng, vias):
    names = {"geometry": ["geo.yaml", "geo.json", "geo.gz"], "voxel": ["vox.pck", "vox.json", "vox.gz"], "problem": ["prob.yaml", "prob.json"],
             "tolerance": ["tol.yaml", "tol.gz"], "solution": ["sol.pck", "sol.json", "sol.gz"], "viewer": ["view.yaml", "view.json"],
             "plotter": ["plot.yaml", "plot.json"]}
    names = {k: rng.sample(v, rng.choice([1, 1, len(v)])) for k, v in names.items()}
    pool = {"geometry": ["g1", "g2", "g1", "g2", "g3", "g4", "gm", "gx"], "problem": ["p1", "p1", "p2", "pm", "px"], "tolerance": ["t1", "t1", "t5", "tx"],
            "viewer": ["w1", "w1", "wm"], "plotter": ["q1", "q1", "qm"]}
    steps = []

    def put(kind, name):
        of = rng.choice(pool[kind]) if rng.random() < 0.9 else None
        steps.append({**BLANK, "op": "put", "file": name, "content": {"kind": kind, "of": [of]} if of else {"kind": rng.choice(["none", "garbage"]), "of": []}})

    for kind in pool:
        for name in names[kind]:
            put(kind, name)
    for _ in range(rng.randint(3, 10)):
        op = rng.choice(["mesher", "mesher", "solver", "solver", "solver", "viewer", "plotter", "plotter", "put", "put"])
        if op == "put":
            kind = rng.choice(list(pool))
            put(kind, rng.choice(names[kind]))
            continue
        e = {**BLANK, "op": op, "via": rng.choice(vias)}
        for x in FILES[op]:
            e[x] = rng.choice(names[x])
        if op in ["viewer", "plotter"]:
            e["tags"] = rng.choice([{"all": True, "list": []}, {"all": False, "list": ["a"]}, {"all": False, "list": ["b", "a"]}, {"all": False, "list": ["zz"]}])
            e["sweeps"] = rng.choice([{"all": True, "list": []}, {"all": False, "list": ["ac"]}, {"all": False, "list": ["dc", "zz"]}]) if op == "plotter" else BLANK["sweeps"]
            if e["via"] != "script":
                (e["mode"], e["folder"]) = rng.choice([("debug", ""), ("save", ""), ("save", "out")])
        steps.append(e)
    return {"steps": steps}


def extractions():
    out = []
    for name in ["examples", "documentation"]:
        for mode in ["good", "missing", "damaged", "real"]:
            for path in ["new", "out", "new/deep", "box.stl"]:
                out.append({"steps": [{**BLANK, "op": "extract", "mode": mode, "argv": [name, path]}]})
    return out


def run(check):
    check.model("FilesMC", "INIT Init\nNEXT Next\nINVARIANT FilesInv\nPROPERTY FilesStep\n", "all histories with a file of each kind", deadlock=True, workers=8)
    res = check.model("FilesMC", "INIT Init\nNEXT FamNext\n", "single runs with all kinds of files", workers=8)
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    check.note("%d requests enumerated" % len(fam))
    REF.update(pickle.loads(execute(make_refs, [0])[0]))
    rng = check.rng
    usage = [x for x in fam if x["steps"][-1]["op"] == "usage"]
    pools = {op: [x for x in fam if x["steps"][-1]["op"] == op] for op in FILES}
    items = usage + extractions()
    for op in FILES:
        items += rng.sample(pools[op], {"mesher": 600, "solver": 1000, "viewer": 250, "plotter": 250}[op]) if check.quick else pools[op]
    if not check.quick:
        items = random.Random(7).sample(items, 25000) if len(items) > 25000 else items
    recs = execute(run_steps, items)
    for k in range(0, len(recs), 8000):
        check.judge("FilesTrace", recs[k:k+8000], "single runs of the exhaustive family", workers=8)
    items = [random_history(rng, ["call", "long", "short"]) for _ in range(200 if check.quick else 2500)]
    check.judge("FilesTrace", execute(run_steps, items), "random histories", workers=8)
    # command line in new processes
    items = []
    for op in FILES:
        pool = [x for x in pools[op] if x["steps"][-1]["mode"] == "debug" and x["steps"][-1]["via"] == "long" and all(s["content"]["kind"] not in ["none", "garbage"] for s in x["steps"][:-1])]
        for k, x in enumerate(rng.sample(pool, 4 if check.quick else 40)):
            items.append({"steps": x["steps"][:-1] + [{**x["steps"][-1], "via": "script", "ascii": k % 2 == 0}]})
    items += [{"steps": x["steps"][:-1] + [{**x["steps"][-1], "via": "script"}]} for x in rng.sample(usage, 4 if check.quick else 40)]
    check.judge("FilesTrace", execute(run_steps, items, chunk=1), "command line in new processes", workers=8)
