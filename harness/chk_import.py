"""
Properties of the import of geometries (M07 images, M08 shapes, M09 solid bodies).
"""

import json
import os
import shutil
import tempfile

import chk_mesher
from common import dec, execute

SPLIT = {"check_cloud", "full_cloud", "pts", "use_reduce", "use_resample", "factor", "resolve_rules", "resolve_random",
         "rules", "adjacent", "connected"}
PLAIN = {"check_cloud": False, "full_cloud": False, "pts": [], "use_reduce": False, "use_resample": False, "factor": [1, 1, 1],
         "resolve_rules": True, "resolve_random": False, "rules": [], "adjacent": [], "connected": []}


def geometry(req, mesh_type, data):
    """
    Geometry data with the options of the later stages.
    """

    geom = chk_mesher.get_geometry({**req, "n": [1, 1, 1], "d": ["1", "1", "1"], "c": ["0", "0", "0"], "names": [], "dom": {}})
    return {**geom, "mesh_type": mesh_type, "data_voxelize": data}


def mesh(req, geom):
    """
    Run the mesher, and record the outcome.
    """

    from pypeec import main

    try:
        data = main.run_mesher_data(geom)
    except Exception as ex:  # noqa: BLE001
        return {"req": req, "obs": {**chk_mesher.BLANK, "err": type(ex).__name__ + ": " + str(ex)[:80]}}
    try:
        obs = chk_mesher.get_obs(data["data_geom"])
        obs["ok"] = data["status"] is True
    except Exception as ex:  # noqa: BLE001
        obs = {**chk_mesher.BLANK, "ok": True, "err": "malformed: " + type(ex).__name__}
    return {"req": req, "obs": obs}


# ----------------------------------------------------------------------------
# images
# ----------------------------------------------------------------------------

MODES = ["RGBA", "RGB", "P", "L", "1", "LA"]


def color(text):
    return [int(x) for x in text.split(",")]


def write_png(rows, name, mode):
    """
    Write an image, in the given mode if this mode can represent the colors.
    """

    from PIL import Image

    pix = [[tuple(color(x)) for x in row] for row in rows]
    flat = [x for row in pix for x in row]
    img = Image.new("RGBA", (len(rows[0]), len(rows)))
    img.putdata(flat)
    if mode != "RGBA":
        tmp = img.convert(mode, dither=Image.Dither.NONE) if mode != "P" else img.convert("RGB").convert("P", palette=Image.Palette.ADAPTIVE)
        if list(tmp.convert("RGBA").getdata()) == flat:
            img = tmp
    img.save(name, format="PNG")


def run_image(item):
    req = item["req"]
    path = tempfile.mkdtemp(dir=item["dir"])
    try:
        layers = []
        files = {}
        for k, layer in enumerate(req["layers"]):
            names = []
            for j, rows in enumerate(layer["images"]):
                # the same image is the same file
                name = files.setdefault(json.dumps(rows), os.path.join(path, "img_%d_%d.png" % (k, j)))
                if not os.path.exists(name):
                    write_png(rows, name, item["mode"])
                names.append(name)
            layers.append({"n_layer": layer["n_layer"], "filename_list": names})
        data = {
            "param": {"d": [float(x) for x in req["d"]], "c": [float(x) for x in req["c"]], "size": list(req["size"])},
            "domain_color": {t: [color(x) for x in req["colors"][t]] for t in req["names"]},
            "layer_stack": layers,
        }
        return mesh(req, geometry(req, "png", data))
    finally:
        shutil.rmtree(path, ignore_errors=True)


def random_image(rng):
    """
    Random stack of images.
    """

    size = [rng.randint(1, 6), rng.randint(1, 6)]
    gray = rng.random() < 0.2
    pool = ["0,0,0,255", "255,255,255,255", "127,127,127,255"] if gray else [
        "255,0,0,255", "255,0,0,254", "0,255,0,255", "0,0,255,255", "0,0,0,0", "255,255,255,0", "1,2,3,4", "4,3,2,1", "0,0,1,255"]
    rng.shuffle(pool)
    names = ["a", "b", "c"][:rng.randint(1, 3)]
    shared = rng.random() < 0.3
    left = list(pool)
    colors = {}
    for t in names:
        k = rng.randint(1, 2)
        colors[t] = [rng.choice(pool) for _ in range(k)] if shared else [left.pop() for _ in range(k if len(left) > 4 else 1)]
    layers = []
    for _ in range(rng.randint(1, 4)):
        images = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            (nx, ny) = size if rng.random() > 0.02 else rng.choice([(size[1], size[0]), (size[0] + 1, size[1]), (size[0], size[1] + 1)])
            rows = [[rng.choice(pool) for _ in range(nx)] for _ in range(ny)]
            known = images + [x for y in layers for x in y["images"]]
            images.append(rng.choice(known) if known and rng.random() < 0.2 else rows)
        layers.append({"n_layer": rng.randint(1, 3), "images": images})
    req = {**PLAIN, "size": size, "d": [rng.choice(chk_mesher.DYADIC) for _ in range(3)],
           "c": [rng.choice(["0.0", "1.0", "-2.5", "0.75"]) for _ in range(3)], "names": names, "colors": colors, "layers": layers}
    if shared or any(len(x["images"]) > 1 for x in layers):
        order = list(names)
        rng.shuffle(order)
        pairs = [(order[i], order[j]) for i in range(len(order)) for j in range(i + 1, len(order))]
        if rng.random() < 0.8:
            req["rules"] = [{"keep": [k], "resolve": [r]} for (k, r) in pairs]
    req["use_reduce"] = rng.random() < 0.2
    req["use_resample"] = rng.random() < 0.2
    req["factor"] = [rng.randint(1, 2) for _ in range(3)]
    return req


def run_images(check):
    cfg = "INIT MCInit\nNEXT MCNext\nINVARIANT ImgInv\n"
    res = check.model("ImagesMC", cfg, "all the stacks of small images", deadlock=True, workers=8, need=["StackEmit", "StackEnd"])
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    check.note("%d stacks of images" % len(fam))
    if check.quick and len(fam) > 1200:
        fam = check.rng.sample(fam, 1200)
    reqs = [{k: v for k, v in x.items() if k not in ("n", "dom")} for x in fam]
    items = [{"req": x, "mode": "RGBA", "dir": check.scratch.path} for x in reqs]
    kw = {"own": ["refused a valid", "accepted, must be refused: image", "grid", "voxel dimension", "domain"],
          "cfg": "INIT InitImg\nNEXT NextImg\n", "workers": 8, "timeout": 2000}
    check.judge("ImagesTrace", execute(run_image, items), "replay of the exhaustive family", **kw)
    items = [{"req": random_image(check.rng), "mode": check.rng.choice(MODES), "dir": check.scratch.path}
             for _ in range(700 if check.quick else 8000)]
    check.judge("ImagesTrace", execute(run_image, items), "random stacks of images", **kw)


# ----------------------------------------------------------------------------
# solid bodies
# ----------------------------------------------------------------------------

def hull(points):
    """
    Triangles, half spaces, and box of the convex hull of points with integer coordinates (exact).
    """

    import numpy as np
    from scipy.spatial import ConvexHull

    pts = np.array(points)
    mid = pts.mean(axis=0)
    tris = []
    rows = set()
    for (i, j, k) in ConvexHull(pts).simplices:
        (a, b, c) = (pts[i], pts[j], pts[k])
        nrm = np.cross(b - a, c - a)
        if nrm @ (mid - a) > 0:
            (b, c, nrm) = (c, b, -nrm)
        g = int(np.gcd.reduce(nrm)) or 1
        rows.add(tuple(int(x) // g for x in nrm) + (int(nrm @ a) // g,))
        tris.append([a.tolist(), b.tolist(), c.tolist()])
    return tris, [[str(x) for x in r] for r in sorted(rows)]


def box_part(lo, hi):
    rows = []
    for a in range(3):
        e = ["0", "0", "0"]
        e[a] = "1"
        rows.append(e + [str(hi[a])])
        e = ["0", "0", "0"]
        e[a] = "-1"
        rows.append(e + [repr(-float(lo[a]))])
    return rows


def box_mesh(lo, hi):
    """
    Triangles of a box.
    """

    (x, y, z) = [(float(lo[a]), float(hi[a])) for a in range(3)]
    v = [[x[i & 1], y[(i >> 1) & 1], z[(i >> 2) & 1]] for i in range(8)]
    quads = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    return [t for (a, b, c, e) in quads for t in ([v[a], v[b], v[c]], [v[a], v[c], v[e]])]


def bar_mesh(cells, wx, wy, wz):
    """
    Surface of face-connected cells of a raster with the given coordinates.
    """

    tris = []
    for (x, y, z) in cells:
        lo = (wx[x], wy[y], wz[z])
        hi = (wx[x+1], wy[y+1], wz[z+1])
        mesh_tri = box_mesh(lo, hi)
        near = [(x, y, z-1), (x, y, z+1), (x, y-1, z), (x, y+1, z), (x-1, y, z), (x+1, y, z)]
        for k in range(6):
            if near[k] not in cells:
                tris += mesh_tri[2*k:2*k+2]
    return tris


def write_stl(tris, name, text):
    import struct

    if text:
        with open(name, "w") as fid:
            fid.write("solid body\n")
            for t in tris:
                fid.write("facet normal 0 0 0\nouter loop\n")
                for p in t:
                    fid.write("vertex %r %r %r\n" % tuple(float(x) for x in p))
                fid.write("endloop\nendfacet\n")
            fid.write("endsolid body\n")
    else:
        with open(name, "wb") as fid:
            fid.write(b" " * 80 + struct.pack("<I", len(tris)))
            for t in tris:
                fid.write(struct.pack("<12fH", 0, 0, 0, *[float(x) for p in t for x in p], 0))


def run_solid(item):
    req = item["req"]
    path = tempfile.mkdtemp(dir=item["dir"])
    try:
        domain = {t: [] for t in req["names"] if any(b["name"] == t for b in req["bodies"])}
        for k, b in enumerate(req["bodies"]):
            tris = item["tris"][k]
            # the same body is the same file
            first = min(j for j in range(k+1) if item["tris"][j] == tris and req["bodies"][j]["file"] == b["file"])
            name = os.path.join(path, "body_%d.stl" % first)
            if b["file"] == "garbage":
                with open(name, "w") as fid:
                    fid.write("this is not a body\n")
            elif b["file"] != "missing":
                write_stl(tris[1:] if b["file"] == "open" else tris, name, item["text"])
            domain[b["name"]].append({"scale": float(b["scale"]), "offset": [float(x) for x in b["offset"]], "filename": name})
        data = {"param": {"d": [float(x) for x in req["d"]], "xyz_min": [float(x) for x in req["lo"]] or None,
                          "xyz_max": [float(x) for x in req["hi"]] or None}, "domain_stl": domain}
        return mesh({**req, "names": list(domain)}, geometry(PLAIN, "stl", data))
    finally:
        shutil.rmtree(path, ignore_errors=True)


def random_solid(rng):
    """
    Random bodies: boxes, polyhedra, and unions of boxes.
    """

    names = ["a", "b", "c"][:rng.randint(1, 3)]
    (bodies, tris) = ([], [])
    unit = rng.choice([1, 1, 10])
    apart = rng.random() < 0.6
    for k in range(rng.randint(1, 4)):
        kind = rng.choice(["box", "hull", "hull", "bar"])
        scale = rng.choice(["1.0", "0.5", "0.25", "2.0", "0.001"])
        copy = rng.randrange(k) if k > 0 and rng.random() < 0.3 else None
        # in the units of the file
        size = 4*unit/float(scale)
        if kind == "box":
            lo = [rng.randint(-20, 20) for _ in range(3)]
            hi = [x + rng.randint(1, 30) for x in lo]
            tri = box_mesh(lo, hi)
            parts = [box_part(lo, hi)]
        elif kind == "hull":
            while True:
                try:
                    (tri, part) = hull([[rng.randint(-20, 20) for _ in range(3)] for _ in range(rng.randint(4, 9))])
                    break
                except Exception:  # noqa: BLE001
                    pass
            parts = [part]
        else:
            cells = {(1, 1, 1)}
            for _ in range(rng.randint(1, 4)):
                p = list(rng.choice(sorted(cells)))
                a = rng.randrange(3)
                p[a] = min(2, max(0, p[a] + rng.choice([-1, 1])))
                cells.add(tuple(p))
            w = [sorted(rng.sample(range(-20, 25), 4)) for _ in range(3)]
            tri = bar_mesh(cells, *w)
            parts = [box_part([w[a][p[a]] for a in range(3)], [w[a][p[a]+1] for a in range(3)]) for p in sorted(cells)]
            if not closed(tri):
                (tri, parts) = (box_mesh([w[a][0] for a in range(3)], [w[a][3] for a in range(3)]),
                                [box_part([w[a][0] for a in range(3)], [w[a][3] for a in range(3)])])
        # coordinates in the file: integers times a power of two or a decimal unit
        mult = size/16
        tri = [[[x*mult for x in p] for p in t] for t in tri]
        parts = [[r[:3] + [dec(float(r[3])*mult)] for r in part] for part in parts]
        flat = [p for t in tri for p in t]
        box = [[dec(f(p[a] for p in flat)) for a in range(3)] for f in (min, max)]
        if copy is not None:
            # another copy of a body
            tri = tris[copy]
            (parts, box) = (bodies[copy]["parts"], bodies[copy]["box"])
            scale = dec(float(bodies[copy]["scale"])*rng.choice([1, 1, 0.5, 2]))
        off = [dec(rng.choice([0, 0, 1, -2, 3.5])*unit) for _ in range(3)]
        if apart:
            off[0] = dec(20.0*unit*k)
        bodies.append({"name": names[k] if k < len(names) else rng.choice(names),
                       "file": "good" if rng.random() < 0.97 else rng.choice(["missing", "garbage", "open"]),
                       "scale": scale, "offset": off, "parts": parts, "box": box})
        tris.append(tri)
    lo = [min(float(b["scale"])*float(b["box"][0][a]) + float(b["offset"][a]) for b in bodies) for a in range(3)]
    hi = [max(float(b["scale"])*float(b["box"][1][a]) + float(b["offset"][a]) for b in bodies) for a in range(3)]
    req = {"names": names, "bodies": bodies, "lo": [], "hi": []}
    if rng.random() < 0.5:
        lo = [x + rng.uniform(-0.2, 0.3)*(y - x) for (x, y) in zip(lo, hi)]
        req["lo"] = [dec(round(x, 3)) for x in lo]
    if rng.random() < 0.5:
        hi = [y + rng.uniform(-0.3, 0.2)*(y - x) for (x, y) in zip(lo, hi)]
        if rng.random() < 0.05:
            a = rng.randrange(3)
            hi[a] = lo[a] - rng.choice([0, 1, 2])*abs(hi[a] - lo[a])
        req["hi"] = [dec(round(x, 3)) for x in hi]
    req["d"] = [dec(float("%.3g" % max(abs(y - x)/rng.uniform(0.7, 9.3), 1e-3))) for (x, y) in zip(lo, hi)]
    return {"req": req, "tris": tris, "text": rng.random() < 0.3}


def closed(tris):
    """
    Each edge belongs to exactly two triangles.
    """

    count = {}
    for t in tris:
        for k in range(3):
            e = tuple(sorted((tuple(t[k]), tuple(t[(k+1) % 3]))))
            count[e] = count.get(e, 0) + 1
    return all(x == 2 for x in count.values())


def run_solids(check):
    cfg = "INIT MCInit\nNEXT MCNext\nINVARIANT SolidInv\n"
    res = check.model("SolidsMC", cfg, "boxes around a grid", deadlock=True, workers=8, need=["Load1", "MakeGrid", "Fill", "Finish"])
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    check.note("%d arrangements of boxes" % len(fam))
    if check.quick and len(fam) > 500:
        fam = check.rng.sample(fam, 500)
    items = [{"req": x, "text": False, "dir": check.scratch.path, "tris": [box_mesh(*b["box"]) for b in x["bodies"]]} for x in fam]
    kw = {"workers": 8, "timeout": 2000}
    check.judge("SolidsTrace", execute(run_solid, items), "boxes around a grid", **kw)
    items = [{**random_solid(check.rng), "dir": check.scratch.path} for _ in range(250 if check.quick else 4000)]
    check.judge("SolidsTrace", execute(run_solid, items), "random bodies", **kw)


# ----------------------------------------------------------------------------
# shapes
# ----------------------------------------------------------------------------

def run_shape(item):
    req = item["req"]

    def coords(s):
        return [[float(x) for x in p] for p in s]

    shapes = {}
    for t in req["names"]:
        shapes[t] = []
        for x in req["shapes"][t]:
            if x["type"] == "pad":
                data = {"diameter": 2*float(x["r"]), "coord": coords(x["coord"])}
            elif x["type"] == "trace":
                data = {"width": 2*float(x["r"]), "coord": coords(x["coord"])}
            else:
                data = {"buffer": float(x["r"]) if x["r"] else None, "coord_shell": coords(x["coord"]),
                        "coord_holes": [coords(h) for h in x["holes"]]}
            shapes[t].append({"shape_layer": list(x["layers"]), "shape_operation": x["op"], "shape_type": x["type"], "shape_data": data})
    data = {
        "param": {"dx": float(req["d"][0]), "dy": float(req["d"][1]), "dz": float(req["d"][2]),
                  "cz": float(req["cz"]) if req["cz"] else None, "simplify": item["simplify"], "construct": item["construct"],
                  "xy_min": [float(x) for x in req["lo"]] or None, "xy_max": [float(x) for x in req["hi"]] or None},
        "layer_stack": [{"n_layer": x["n_layer"], "tag_layer": x["tag"]} for x in req["layers"]],
        "geometry_shape": shapes,
    }
    return mesh(req, geometry(PLAIN, "shape", data))


def random_piece(rng, unit):
    """
    Random polygon (star-shaped around a point, with holes), pad, or trace.
    """

    import math

    def pt(x, y):
        return [dec(float("%.4g" % (x*unit))), dec(float("%.4g" % (y*unit)))]

    (cx, cy) = (rng.uniform(0, 10), rng.uniform(0, 8))
    kind = rng.choice(["polygon", "polygon", "rect", "pad", "trace", "bow"] if rng.random() < 0.1 else ["polygon", "rect", "pad", "trace"])
    holes = []
    r = ""
    if kind == "rect":
        (w, h) = (rng.uniform(0.5, 6), rng.uniform(0.5, 5))
        coord = [pt(cx, cy), pt(cx + w, cy), pt(cx + w, cy + h), pt(cx, cy + h)]
        if rng.random() < 0.4:
            holes.append([pt(cx + w*f, cy + h*g) for (f, g) in ((0.2, 0.15), (0.2, 0.7), (0.6, 0.7), (0.6, 0.15))])
        if rng.random() < 0.3:
            holes.append([pt(cx + w*f, cy + h*g) for (f, g) in ((0.7, 0.1), (0.7, 0.9), (0.95, 0.9), (0.95, 0.1))])
        if rng.random() < 0.3:
            coord.reverse()
    elif kind == "polygon":
        ang = sorted(rng.uniform(0, 2*math.pi) for _ in range(rng.randint(4, 8)))
        ang = [2*math.pi*k/len(ang) + 0.6*a/len(ang) for (k, a) in enumerate(ang)]
        coord = [pt(cx + q*math.cos(a), cy + q*math.sin(a)) for (a, q) in ((a, rng.uniform(1.0, 5.0)) for a in ang)]
        if rng.random() < 0.3:
            holes.append([pt(cx + 0.4*math.cos(a), cy + 0.4*math.sin(a)) for a in (0.1, 1.6, 3.2, 4.8)])
    elif kind == "bow":
        coord = [pt(cx, cy), pt(cx + 3, cy + 3.1), pt(cx + 3.2, cy), pt(cx, cy + 2.9)]
    elif kind == "pad":
        coord = [pt(rng.uniform(0, 10), rng.uniform(0, 8)) for _ in range(rng.randint(1, 3))]
        r = dec(float("%.3g" % (unit*rng.uniform(0.5, 3))))
    else:
        coord = [pt(rng.uniform(0, 10), rng.uniform(0, 8)) for _ in range(rng.randint(2, 4))]
        r = dec(float("%.3g" % (unit*rng.uniform(0.3, 1.5))))
    if kind in ("rect", "polygon") and rng.random() < 0.25:
        r = dec(float("%.3g" % (unit*rng.uniform(0.1, 0.3))))
    return {"type": kind if kind in ("pad", "trace") else "polygon", "coord": coord, "holes": holes, "r": r}


def related_piece(rng, piece):
    """
    Piece with the same coordinates, but another size, kind, or without holes (or just the same).
    """

    new = dict(piece)
    what = rng.choice(["size", "size", "kind", "holes", "same"])
    if what == "size" and new["r"]:
        new["r"] = dec(float("%.3g" % (float(new["r"])*rng.choice([0.4, 0.6, 1.5, 2.0]))))
    elif what == "kind" and new["type"] in ("pad", "trace") and len(new["coord"]) > 1:
        new["type"] = "trace" if new["type"] == "pad" else "pad"
    elif what == "holes":
        new["holes"] = []
    return new


def random_shape(rng):
    unit = rng.choice([1.0, 1.0, 1e-3, 25.0])
    names = ["a", "b", "c"][:rng.randint(1, 3)]
    tags = ["top", "mid", "bot"][:rng.randint(1, 3)]
    rng.shuffle(tags)
    layers = [{"n_layer": rng.randint(1, 3), "tag": t} for t in tags]
    if rng.random() < 0.03:
        layers.append({"n_layer": 1, "tag": rng.choice(tags)})
    shapes = {}
    pieces = []
    related = rng.choice([0.0, 0.15, 0.5])
    alone = rng.random() < 0.6 and len(tags) >= len(names)
    for (k, t) in enumerate(names):
        shapes[t] = []
        for j in range(rng.randint(1, 4)):
            where = [tags[k]] if alone else rng.sample(tags, rng.randint(1, len(tags)))
            piece = related_piece(rng, rng.choice(pieces)) if pieces and rng.random() < related else random_piece(rng, unit)
            pieces.append(piece)
            shapes[t].append({**piece, "op": "add" if j == 0 or rng.random() < 0.6 else "sub",
                              "layers": where + (["absent"] if rng.random() < 0.1 else [])})
        rng.shuffle(shapes[t])
    construct = rng.choice([None, None, 1e-6])
    simplify = rng.choice([None, None, 1e-6, 0.02])
    slack = 1e-9 + 2*(construct or 0) + 2*(simplify or 0)
    req = {"d": [dec(float("%.3g" % (unit*rng.uniform(0.6, 2.5)))) for _ in range(3)], "cz": rng.choice(["", "0.0", "1.5", "-20.0"]),
           "lo": [], "hi": [], "slack": dec(slack*unit), "names": names, "layers": layers, "shapes": shapes}
    # the extent of a difference is not derived by the specification
    known = not any(x["op"] == "sub" for t in names for x in shapes[t]) or rng.random() < 0.1
    known = known and not (simplify and simplify > 1e-3)
    if not known or rng.random() < 0.6:
        req["lo"] = [dec(float("%.3g" % (unit*rng.uniform(-4, 5)))) for _ in range(2)]
    if not known or rng.random() < 0.6:
        req["hi"] = [dec(float("%.3g" % (unit*rng.uniform(6, 14)))) for _ in range(2)]
    if rng.random() < 0.02 and req["lo"]:
        req["hi"] = [dec(float(x) - unit*y) for (x, y) in zip(req["lo"], rng.choice([(1, 1), (-3, 2), (0, -3)]))]
    return {"req": req, "construct": construct and construct*unit, "simplify": simplify and simplify*unit}


def run_shapes(check):
    cfg = "INIT MCInit\nNEXT MCNext\nINVARIANT ShapeInv\n"
    res = check.model("ShapesMC", cfg, "sequences of pieces on two layers", deadlock=True, workers=8,
                      need=["Layers2", "Compose", "MakeGrid", "Fill", "Finish"], timeout=2000)
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    check.note("%d sequences of pieces" % len(fam))
    if check.quick and len(fam) > 500:
        fam = check.rng.sample(fam, 500)
    items = [{"req": x, "construct": None, "simplify": None} for x in fam]
    kw = {"workers": 8, "timeout": 2000}
    check.judge("ShapesTrace", execute(run_shape, items), "sequences of pieces on two layers", **kw)
    items = [random_shape(check.rng) for _ in range(250 if check.quick else 4000)]
    check.judge("ShapesTrace", execute(run_shape, items), "random shapes", **kw)


def run(check):
    {"M07": run_images, "M08": run_shapes, "M09": run_solids}[check.pid](check)
