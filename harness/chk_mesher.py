"""
Properties of the mesher (M01 to M06): specification Mesher.tla, trace specification MesherTrace.tla.

The requests are the exhaustive families enumerated by TLC (MesherMC.tla) and seeded random requests on larger grids.
Every request is executed with the public entry point of the mesher, TLC judges the recorded outcome.
"""

import json

from common import dec, execute

# property -> (family of TLC, focus of the random requests, clauses owned by the property)
PLAN = {
    "M01": (["index"], "index", [
        "refused a valid", "accepted, must be refused: index", "grid", "voxel dimension", "domain", "summary"]),
    "M02": (["grid"], "grid", [
        "refused a valid", "grid", "voxel dimension", "domain", "summary"]),
    "M03": (["conflict"], "conflict", [
        "refused a valid", "accepted, must be refused: rule", "accepted, must be refused: overlap",
        "random resolution", "domain"]),
    "M04": (["graph"], "graph", ["refused a valid", "connected components"]),
    "M05": (["integrity"], "integrity", [
        "refused a valid", "accepted, must be refused: adjacent", "accepted, must be refused: connected"]),
    "M06": (["cloud"], "cloud", [
        "refused a valid", "accepted, must be refused: cloud", "field points", "summary"]),
}

STAGES = ["LoadEmit", "Cloud", "Reduce", "Resample", "RuleEnd", "CheckDisjoint", "Graph", "CheckAdjacent", "CheckConnected"]

CFG = "INIT Init\nNEXT MCNext\nINVARIANT Inv\n"


# ----------------------------------------------------------------------------
# implementation
# ----------------------------------------------------------------------------

def get_geometry(req):
    """
    Geometry data of the implementation for a request.
    """

    def checks(items):
        return {"chk_%d" % k: {"domain_group": x["groups"], "connected": x["connected"]} for k, x in enumerate(items)}

    return {
        "mesh_type": "voxel",
        "data_voxelize": {
            "param": {"n": list(req["n"]), "d": [float(x) for x in req["d"]], "c": [float(x) for x in req["c"]]},
            "domain_index": {t: list(req["dom"][t]) for t in req["names"]},
        },
        "data_point": {
            "check_cloud": req["check_cloud"], "full_cloud": req["full_cloud"],
            "pts_cloud": [[float(x) for x in p] for p in req["pts"]],
        },
        "data_resampling": {
            "use_reduce": req["use_reduce"], "use_resample": req["use_resample"],
            "resampling_factor": list(req["factor"]),
        },
        "data_conflict": {
            "resolve_rules": req["resolve_rules"], "resolve_random": req["resolve_random"],
            "conflict_rules": [{"domain_keep": x["keep"], "domain_resolve": x["resolve"]} for x in req["rules"]],
        },
        "data_integrity": {
            "domain_connected": checks(req["connected"]),
            "domain_adjacent": checks(req["adjacent"]),
        },
    }


def ints(val):
    """
    List of integers (a value that is not an integer becomes -1, which matches nothing).
    """

    out = []
    for x in val:
        out.append(int(x) if float(x) == int(x) else -1)
    return out


BLANK = {"ok": False, "err": "", "n": [], "d": [], "c": [], "s": [], "dom": {}, "graph": [], "pts": [], "status": {
    "n_total": -1, "n_used": -1, "n_domain": -1, "n_graph": -1, "n_cloud": -1,
    "A_xy": "nan", "A_yz": "nan", "A_xz": "nan", "V_total": "nan", "V_used": "nan", "ratio": "nan"}}


def get_obs(geom):
    """
    Observation of a voxel structure.
    """

    sta = geom["voxel_status"]
    return {
        "ok": True, "err": "",
        "n": ints(geom["n"]), "d": [dec(x) for x in geom["d"]],
        "c": [dec(x) for x in geom["c"]], "s": [dec(x) for x in geom["s"]],
        "dom": {t: ints(i) for t, i in geom["domain_def"].items()},
        "graph": [ints(i) for i in geom["graph_def"]],
        "pts": [[dec(x) for x in p] for p in geom["pts_cloud"]],
        "status": {
            **{k: int(sta[k]) for k in ["n_total", "n_used", "n_domain", "n_graph", "n_cloud"]},
            **{k: dec(sta[k]) for k in ["A_xy", "A_yz", "A_xz", "V_total", "V_used", "ratio"]},
        },
    }


def run_request(req):
    """
    Execute a request on the implementation and record the outcome.
    """

    from pypeec import main

    try:
        data = main.run_mesher_data(get_geometry(req))
    except Exception as ex:  # noqa: BLE001
        return {"req": req, "obs": {**BLANK, "err": type(ex).__name__}}
    try:
        obs = get_obs(data["data_geom"])
        obs["ok"] = data["status"] is True
    except Exception as ex:  # noqa: BLE001
        obs = {**BLANK, "ok": True, "err": "malformed: " + type(ex).__name__}
    return {"req": req, "obs": obs}


# ----------------------------------------------------------------------------
# random requests
# ----------------------------------------------------------------------------

NAMES = ["a", "b", "c", "dd", "e"]
DYADIC = ["1.0", "0.5", "0.25", "2.0", "0.125", "3.0", "1.5"]
PLAIN = ["1e-05", "3.3e-06", "0.0007", "12.5", "0.1", "0.3"]


def random_request(rng, focus):
    """
    Random request on a larger grid, with an emphasis on one stage.
    """

    top = {"index": 6, "grid": 5, "conflict": 5, "graph": 6, "integrity": 5, "cloud": 5}[focus]
    wide = rng.random() < 0.04
    top = top + 3 if rng.random() < 0.04 else top
    size = [rng.randint(20, 50) if wide else rng.randint(1, top) for _ in range(3)]
    nv = size[0] * size[1] * size[2]
    vals = DYADIC if focus == "cloud" or rng.random() < 0.5 else DYADIC + PLAIN
    names = NAMES[:rng.randint(1, 5)]
    if rng.random() < 0.3:
        names = rng.sample(["a", "A", "a ", "a_b", "b_a", "1", "10", "01", "x.y", "None", "-", "aB", "any"], len(names))
    rng.shuffle(names)
    req = {
        "n": size, "d": [rng.choice(vals) for _ in range(3)],
        "c": [rng.choice(["0.0", "1.0", "-2.5", "0.75", "100.0"]) for _ in range(3)],
        "names": names, "dom": {},
        "check_cloud": False, "full_cloud": False, "pts": [],
        "use_reduce": False, "use_resample": False, "factor": [rng.randint(1, 3) for _ in range(3)],
        "resolve_rules": rng.random() < 0.5, "resolve_random": False, "rules": [], "adjacent": [], "connected": [],
    }

    # distribute the voxels (disjoint domains except for the conflicts)
    density = rng.choice([0.1, 0.3, 0.6, 1.0])
    owner = {}
    if wide:
        # large indices: a few small clusters, in an almost empty grid (the last voxel is often used)
        for _ in range(rng.randint(1, 5)):
            i = rng.choice([rng.randrange(nv), rng.randrange(nv), nv - 1, rng.randrange(nv // 2, nv)])
            for j in rng.sample([0, 1, size[0], size[0] * size[1]], 3):
                if i + j < nv:
                    owner[i + j] = rng.choice(names)
    for i in range(0 if wide else nv):
        if rng.random() < density:
            owner[i] = rng.choice(names)
    if focus in ("graph", "integrity") and rng.random() < 0.5:
        # winding paths: few neighbours, long components
        owner = {}
        for t in names:
            pos = [rng.randrange(size[a]) for a in range(3)]
            for _ in range(rng.randint(1, 12)):
                i = pos[0] + size[0] * (pos[1] + size[1] * pos[2])
                owner.setdefault(i, t)
                a = rng.randrange(3)
                pos[a] = min(size[a] - 1, max(0, pos[a] + rng.choice([-1, 1])))
    for t in names:
        idx = [i for i in owner if owner[i] == t]
        rng.shuffle(idx)
        req["dom"][t] = idx

    if focus == "index":
        kind = rng.random()
        t = rng.choice(names)
        if kind < 0.15:
            req["dom"][t] = req["dom"][t] + [nv + rng.choice([0, 0, 1, 7])]
        elif kind < 0.3 and req["dom"][t]:
            req["dom"][t] = req["dom"][t] + [rng.choice(req["dom"][t])]

    if focus == "grid":
        req["use_reduce"] = rng.random() < 0.7
        req["use_resample"] = rng.random() < 0.7

    if focus == "conflict" or rng.random() < 0.2:
        if focus == "conflict":
            for t in names:
                extra = [i for i in (owner if wide else range(nv)) if rng.random() < 0.25 and i not in req["dom"][t]]
                req["dom"][t] = req["dom"][t] + extra
        req["resolve_rules"] = rng.random() < 0.85
        req["resolve_random"] = focus == "conflict" and rng.random() < 0.35
        if len(names) > 1:
            # a total order of the domains resolves everything, a partial list may not
            order = list(names)
            rng.shuffle(order)
            pairs = [(order[i], order[j]) for i in range(len(order)) for j in range(i + 1, len(order))]
            if rng.random() < 0.4:
                pairs = rng.sample(pairs, rng.randint(0, len(pairs)))
            rng.shuffle(pairs)
            while pairs:
                (k, r) = pairs.pop()
                rule = {"keep": [k], "resolve": [r]}
                if rng.random() < 0.4:
                    more = [x for x in names if x not in (k, r)]
                    if more:
                        rule[rng.choice(["keep", "resolve"])].insert(rng.randint(0, 1), rng.choice(more))
                req["rules"].append(rule)
        if focus == "conflict" and rng.random() < 0.05:
            req["rules"].append({"keep": ["zz"], "resolve": [names[0]]})
        if rng.random() < 0.2:
            req["use_reduce"] = True

    if focus == "integrity":
        for field in ("adjacent", "connected"):
            for _ in range(rng.randint(0, 2)):
                pool = list(names)
                rng.shuffle(pool)
                groups = []
                while pool and len(groups) < 3:
                    k = min(len(pool), rng.randint(1, 2))
                    groups.append(pool[:k])
                    pool = pool[k:]
                if rng.random() < 0.03:
                    groups[-1] = groups[-1] + ["zz"]
                req[field].append({"groups": groups, "connected": rng.random() < 0.5})

    if focus == "cloud" or rng.random() < 0.2:
        req["check_cloud"] = rng.random() < 0.85
        req["full_cloud"] = rng.random() < 0.3
        pts = []
        for _ in range(rng.randint(0, 6)):
            pt = []
            if rng.random() < 0.4:
                # around a voxel: inside, at the limit or outside of the excluded region, in all the directions
                i = rng.choice(list(owner) or [0])
                pos = [i % size[0], (i // size[0]) % size[1], i // (size[0] * size[1])]
                for a in range(3):
                    rel = rng.choice([0, 0.5, 0.875, 0.9375, 0.9375, 0.96875, 1, 1.0625, 0.9375]) * rng.choice([1, -1])
                    pt.append(repr(float(req["c"][a]) + float(req["d"][a]) * (pos[a] - (size[a] - 1) / 2 + rel)))
                pts.append(pt)
                continue
            for a in range(3):
                span = size[a] * float(req["d"][a])
                step = float(req["d"][a]) / 4
                pt.append(repr(float(req["c"][a]) - span / 2 + step * rng.randint(-8, 4 * size[a] + 8)))
            pts.append(pt)
        if rng.random() < 0.5:
            pts.append([repr(float(req["c"][a]) + 100.0 * size[a] * float(req["d"][a])) for a in range(3)])
        if focus == "cloud" or all(x in DYADIC for x in req["d"]):
            req["pts"] = pts

    return req


def many_components(rng):
    """
    Hundreds of separated components.
    """

    req = random_request(rng, "graph")
    req["n"] = rng.choice([[9, 8, 8], [8, 9, 8], [17, 16, 2], [2, 20, 14], [1, 600, 1], [24, 23, 1]])
    (nx, ny, nz) = req["n"]
    idx = [x + nx * (y + ny * z) for z in range(nz) for y in range(ny) for x in range(nx) if (x + y + z) % 2 == 0]
    # some voxels are joined
    idx += rng.sample([i for i in range(nx * ny * nz) if i not in set(idx)], rng.randint(0, 3))
    rng.shuffle(idx)
    names = req["names"]
    req["dom"] = {t: idx[k::len(names)] for (k, t) in enumerate(names)}
    req["rules"] = []
    return req


# ----------------------------------------------------------------------------
# check
# ----------------------------------------------------------------------------

def run(check):
    (families, focus, own) = PLAN[check.pid]

    # exhaustive families: explore the specification and collect the requests
    reqs = []
    for family in families:
        res = check.model(
            "MesherMC", CFG, "exhaustive family %s" % family, env={"FAMILY": family, "EMIT": "yes"},
            deadlock=True, workers=8, need=STAGES,
        )
        fam = sorted({x[4:] for x in res["printed"] if x.startswith("REQ ")})
        n_all = len(fam)
        limit = 1500 if check.quick else 12000
        if n_all > limit:
            fam = check.rng.sample(fam, limit)
        check.note("family %s: %d requests, %d replayed" % (family, n_all, len(fam)))
        reqs += [json.loads(x) for x in fam]

    records = execute(run_request, reqs)
    check.judge("MesherTrace", records, "replay of the exhaustive family", own=own, workers=8)

    # random requests
    n_rand = 600 if check.quick else 6000
    reqs = [random_request(check.rng, focus) for _ in range(n_rand)]
    if focus == "graph":
        reqs += [many_components(check.rng) for _ in range(4 if check.quick else 12)]
    records = execute(run_request, reqs)
    check.judge("MesherTrace", records, "random requests on larger grids", own=own, workers=8)
