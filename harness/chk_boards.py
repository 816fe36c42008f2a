"""
Property of the conversion of circuit board layers into images (W08).
The external viewer and image tool are replaced by stand-ins which render fake artwork files (lists of positions).
"""

import copy
import json
import os
import shutil
import stat
import sys
import tempfile

from chk_tools import same
from common import dec, execute

VIEWER = r'''#!%s -ES
import argparse, json, os, re, sys
ap = argparse.ArgumentParser(allow_abbrev=False)
ap.add_argument("-p", "--project")
ap.add_argument("-o", "--output")
ap.add_argument("-x", "--export")
ap.add_argument("-B", "--border", default="5")
ap.add_argument("-D", "--dpi", default="72")
arg = ap.parse_args()
if arg.export != "png" or not arg.output:
    sys.exit(1)
(w, h) = map(int, os.environ["BOARD_SIZE"].split())
layers = []
for txt in re.split(r"\(define-layer!", open(arg.project).read())[1:]:
    n = int(txt.split()[0])
    def opt(name, pat):
        m = re.search(r"'%%s\s+%%s" %% (name, pat), txt)
        return m.groups() if m else None
    file = opt("filename", r'"([^"]*)"')[0]
    color = [int(x)//257 for x in opt("color", r"#\(([^)]*)\)")[0].split()]
    alpha = opt("alpha", r"#\(([^)]*)\)")
    alpha = int(alpha[0]) / 65535 if alpha else 1.0
    visible = opt("visible", r"#([tf])")
    layers.append((n, file, color, alpha, visible is None or visible[0] == "t"))
back = [c for (n, f, c, a, v) in layers if n == -1]
img = [list(back[0] if back else [0, 0, 0]) for _ in range(w*h)]
for (n, file, color, alpha, visible) in sorted((x for x in layers if x[0] >= 0), key=lambda x: -x[0]):
    if not os.path.isabs(file):
        file = os.path.join(os.path.dirname(os.path.abspath(arg.project)), file)
    if not os.path.isfile(file) or not visible:
        continue
    for line in open(file):
        (x, y) = map(int, line.split())
        old = img[x + w*y]
        img[x + w*y] = [round(alpha*c + (1-alpha)*o) for (c, o) in zip(color, old)]
if int(arg.dpi) <= 0:
    sys.exit(1)
with open(arg.output, "w") as fid:
    json.dump({"img": img, "dpi": int(arg.dpi), "border": arg.border, "ops": []}, fid)
'''

IMAGER = r'''#!%s -ES
import json, sys
ops = []
files = []
arg = sys.argv[1:]
while arg:
    x = arg.pop(0)
    if x in ("-trim", "+repage"):
        ops += [["trim", ""]] if x == "-trim" else []
    elif x == "-sample":
        ops.append(["sample", arg.pop(0).rstrip("%%")])
    elif x.startswith("-"):
        ops.append([x, arg.pop(0)])
    else:
        files.append(x)
for x in files:
    with open(x) as fid:
        pic = json.load(fid)
    pic["ops"] += ops
    with open(x, "w") as fid:
        json.dump(pic, fid)
'''


def install(path):
    """
    Write the stand-ins into a folder.
    """

    os.makedirs(path)
    for (name, code) in (("gerbv", VIEWER), ("mogrify", IMAGER)):
        p = os.path.join(path, name)
        with open(p, "w") as fid:
            fid.write(code % sys.executable)
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)


def run_board(item):
    from pypeec.utils import gerber

    req = item["req"]
    folder = tempfile.mkdtemp(dir=item["dir"])
    keep = {x: os.environ.get(x) for x in ("PATH", "BOARD_SIZE")}
    cwd = os.getcwd()
    try:
        os.environ["PATH"] = item["bin"] + os.pathsep + os.environ.get("PATH", "")
        os.environ["BOARD_SIZE"] = "%d %d" % (req["w"], req["h"])
        os.chdir(folder)
        art = os.path.join(folder, item["art"])
        png = os.path.join(folder, item["png"])
        os.makedirs(art)
        os.makedirs(png)
        content = {}
        for (name, at) in [*req["files"].items(), ("board edge", req["edge"])]:
            content["%s.gbr" % name] = "".join("%d %d\n" % tuple(x) for x in at)
        for (name, txt) in content.items():
            with open(os.path.join(art, name), "w") as fid:
                fid.write(txt)
        for t in req["old"]:
            with open(os.path.join(png, t + ".png"), "w") as fid:
                fid.write("old")
        export = {"margin": float(req["margin"]), "voxel": float(req["voxel"]), "oversampling": float(req["over"]),
                  "folder_gerber": art if item["absolute"] else item["art"], "folder_png": png if item["absolute"] else item["png"]}
        data = {"gerber_edge": "board edge.gbr", "color_edge": tuple(req["ce"]), "color_background": tuple(req["cb"]),
                "color_def": {t: tuple(c) for (t, c) in req["colors"].items()}, "gerber_def": {t: "%s.gbr" % t for t in req["files"]}}
        stack = {x["tag"]: copy.deepcopy(x["stack"]) for x in req["layers"]}
        given = [export, data, stack]
        ref = copy.deepcopy(given)
        ok = True
        try:
            gerber.get_convert(*given)
        except Exception:  # noqa: BLE001
            ok = False
        pics = {}
        left = 0
        for name in sorted(os.listdir(png)):
            if not name.endswith(".png"):
                left += 1
                continue
            with open(os.path.join(png, name)) as fid:
                txt = fid.read()
            pics[name[:-4]] = {"img": [], "dpi": 0, "border": "0", "ops": []} if txt == "old" else json.loads(txt)
        for p in pics.values():
            p["ops"] = [[a, dec(b) if b else ""] for (a, b) in p["ops"]]
            p["border"] = dec(p["border"]) if p["dpi"] else "0"
        now = {}
        for name in os.listdir(art):
            with open(os.path.join(art, name)) as fid:
                now[name] = fid.read()
        left += len(set(os.listdir(folder)) - {item["art"], item["png"]})
        return {"req": req, "obs": {"ok": ok, "pics": pics, "left": left, "kept": now == content and same(given, ref)}}
    finally:
        os.chdir(cwd)
        for (k, v) in keep.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(folder, ignore_errors=True)


NAMES = ["front", "back", "via", "drill", "front copper", "l(1)", "a&b", "semi;colon", "it's", "dollar$HOME", "star*", "tick`s", "100%", "-x"]


def ordinary(over, voxel):
    """
    The resolution is well away from a tie and the picture can be scaled.
    """

    dpi = 0.0254*over/voxel
    return dpi > 1 and abs(dpi - int(dpi) - 0.5) > 1e-3


def random_board(rng):
    (w, h) = (rng.randint(1, 6), rng.randint(1, 5))
    spots = [[x, y] for x in range(w) for y in range(h)]
    part = lambda p: [x for x in spots if rng.random() < p]  # noqa: E731
    files = {t: part(rng.choice([0.0, 0.3, 0.6, 1.0])) for t in rng.sample(NAMES, rng.randint(1, 5))}
    color = lambda: [rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(3)]  # noqa: E731
    colors = {t: color() for t in rng.sample(["none", "copper", "sink", "src"], rng.randint(1, 4))}
    layers = []
    for t in rng.sample(NAMES, rng.randint(1, 3)):
        stack = [{"gerber": rng.choice(list(files)), "color": rng.choice(list(colors))} for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]
        if stack and rng.random() < 0.05:
            x = rng.choice(stack)
            x[rng.choice(["gerber", "color"])] = "unknown"
        layers.append({"tag": t, "stack": stack})
    while True:
        (over, voxel) = (rng.choice([0.5, 1.0, 2.0, 3.0, 4.5, 7.0]), float("%.3g" % (10**rng.uniform(-5, -3))))
        if ordinary(over, voxel):
            break
    req = {"files": files, "edge": part(0.2), "w": w, "h": h, "colors": colors, "ce": color(), "cb": color(), "layers": layers,
           "voxel": dec(voxel), "over": dec(over), "margin": dec(rng.choice([0.0, 0.05, 0.1, 0.29, 0.333, 1.5])),
           "old": rng.sample([layers[0]["tag"], "another", "front2"], rng.randint(0, 2))}
    return {"req": req, "art": rng.choice(["art", "my artwork", "art (1) & co", "$art", "it's"]),
            "png": rng.choice(["png", "out images", "png;x", "im`ages", "a'b"]), "absolute": rng.random() < 0.6}


def run(check):
    res = check.model("GerberMC", "INIT MCInit\nNEXT MCNext\nINVARIANT GerberInv\n", "stacks of artwork files", deadlock=True, workers=8,
                      need=["Project", "MCRender", "Trim", "MCSample", "Clean"])
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    check.note("%d requests" % len(fam))
    if check.quick and len(fam) > 150:
        fam = check.rng.sample(fam, 150)
    bin_dir = os.path.join(check.scratch.path, "bin")
    install(bin_dir)
    base = {"dir": check.scratch.path, "bin": bin_dir}
    items = [{**base, "req": x, "art": "art", "png": "png", "absolute": False} for x in fam]
    check.judge("GerberTrace", execute(run_board, items), "replay of the exhaustive family", workers=8)
    items = [{**base, **random_board(check.rng)} for _ in range(150 if check.quick else 2500)]
    check.judge("GerberTrace", execute(run_board, items), "random boards", workers=8)
