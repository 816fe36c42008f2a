"""
Properties of a single solution (S01, S04, S05, S10, S11, S13): specification Peec.tla, trace specification PeecTrace.tla.

The problems are the exhaustive families enumerated by TLC (PeecMC.tla) and seeded random problems.
Every problem is solved with the public entry points, TLC judges the recorded solutions.
"""

import json

import peec
from common import execute

ADMIT = ["admission: refused a valid problem", "admission: numbers"]

# property -> families of TLC, random batches of problems, clauses owned by the property
PLAN = {
    "S01": (["place", "pattern", "value"], ["mutated"], ["admission:"]),
    "S04": (["static"], ["electric", "static", "large"], ADMIT + ["circuit:"]),
    "S05": ([], ["mixed", "lossy", "bulk"], ADMIT + ["power:", "circuit: converged"]),
    "S10": ([], ["points", "crowd", "far"], ADMIT + ["field:", "circuit: converged"]),
    "S11": ([], ["inductive", "line", "simplified"], ADMIT + ["integral: induced voltage", "power: energy", "circuit: converged"]),
    "S13": ([], ["magnetic", "tiny"], ADMIT + ["magnetic:", "integral:", "circuit: converged"]),
}

CFG = "INIT MCInit\nNEXT MCNext\nINVARIANT Inv\n"
STAGES = ["NamesEmit", "Voxels1", "Place1", "Values1", "Connect1", "Integrate1"]


def item(req, brief=False, tol="1e-6", toli="1e-6", **opts):
    """
    Problem with the options and the tolerances of the judgement.
    """

    return {"req": req, "opt": peec.tolerance(**opts), "tol": tol, "toli": toli, "tolc": "1e-6", "brief": brief}


def size(rng, top, limit):
    """
    Random grid with a bounded number of voxels.
    """

    while True:
        n = [rng.randint(1, top) for _ in range(3)]
        if n[0]*n[1]*n[2] <= limit:
            return n


def rescale(rng, req, ratio):
    """
    Same structure with another size.
    """

    for key in ["d", "c"]:
        req[key] = [repr(float("%.6g" % (float(x)*ratio))) for x in req[key]]
    req["pts"] = [[repr(float("%.8g" % (float(x)*ratio))) for x in p] for p in req["pts"]]
    return req


def neighbours(rng, req):
    """
    Points which are nearly at the same position, and repeated points.
    """

    pts = list(req["pts"])
    for p in pts[:4]:
        a = rng.randrange(3)
        q = list(p)
        q[a] = repr(float("%.10g" % (float(p[a]) + float(req["d"][a])*rng.choice([1e-2, -1e-2, 0.2, -0.2, 0.0]))))
        req["pts"].append(q)
    return req


def batch(rng, name, count):
    """
    Random problems of a kind.
    """

    out = []
    for _ in range(count):
        if name == "mutated":
            req = peec.random_problem(rng, n_pts=rng.choice([0, 1]))
            out.append(item(peec.mutate(rng, req), brief=True))
        elif name == "electric":
            req = peec.random_problem(rng, magnetic=False, n_pts=0)
            out.append(item(req))
        elif name == "static":
            req = peec.random_problem(rng, size=size(rng, 6, 60), magnetic=False, freq="0.0", n_pts=0)
            out.append(item(req))
        elif name == "large":
            # larger grids in direct current (the inductances are not needed)
            req = peec.random_problem(rng, size=size(rng, 9, 200), magnetic=False, freq="0.0", n_pts=0)
            out.append(item(req))
        elif name == "mixed":
            out.append(item(peec.random_problem(rng, n_pts=0)))
        elif name == "lossy":
            req = peec.random_problem(rng, magnetic=True, freq=rng.choice(["0.0", "1000.0", "1e5", "1e6"]), n_pts=0)
            out.append(item(req))
        elif name == "points":
            req = peec.random_problem(rng, size=size(rng, 4, 16), magnetic=rng.random() < 0.6, n_pts=rng.randint(1, 5))
            req["field"] = rng.choice(["face", "voxel"])
            ratio = rng.choice([1, 1, 1, 0.03, 10])
            req = rescale(rng, req, ratio)
            out.append({**item(neighbours(rng, req) if rng.random() < 0.4 else req), "loose": ratio != 1})
        elif name == "crowd":
            # many points around a small structure
            req = peec.random_problem(rng, size=size(rng, 3, 6), magnetic=rng.random() < 0.5, n_pts=rng.choice([20, 40, 70, 120]))
            req["field"] = rng.choice(["face", "voxel"])
            ratio = rng.choice([1, 1, 0.03])
            out.append({**item(rescale(rng, req, ratio)), "loose": ratio != 1})
        elif name == "far":
            # few points around a large structure
            req = peec.random_problem(rng, size=size(rng, 9, 150), magnetic=rng.random() < 0.5, freq="0.0", n_pts=2)
            req["field"] = rng.choice(["face", "voxel"])
            out.append(item(req))
        elif name == "bulk":
            # larger structures
            out.append(item(peec.random_problem(rng, size=size(rng, 7, 90), n_pts=0)))
        elif name == "laws":
            # complex values in all the fields
            req = peec.random_problem(rng, magnetic=True, freq=rng.choice(["50.0", "1e4", "1e6"]), n_pts=0)
            out.append(item(peec.complex_values(rng, req)))
        elif name == "tiny":
            # few voxels
            req = peec.random_problem(rng, size=rng.choice([[1, 1, 2], [1, 2, 1], [2, 1, 1], [1, 1, 3], [2, 2, 1], [1, 2, 2]]), n_pts=0, magnetic=True)
            out.append(item(req))
        elif name == "inductive":
            req = peec.random_problem(rng, magnetic=False, freq=rng.choice(["1000.0", "1e5", "1e6", "1e7"]), n_pts=0)
            ratio = rng.choice([1, 1, 1e-3, 1e3])
            req["d"] = [repr(float("%.4g" % (float(x)*ratio))) for x in req["d"]]
            req["c"] = ["0.0", "0.0", "0.0"]
            out.append(item(req))
        elif name == "line":
            # elongated grids (large offsets) in all the directions, high frequency
            n = [rng.randint(8, 14), rng.randint(1, 2), 1]
            rng.shuffle(n)
            req = peec.random_problem(rng, size=n, magnetic=False, freq=rng.choice(["1e5", "1e6", "1e7"]), n_pts=0)
            out.append(item(req, toli="1e-4"))
        elif name == "simplified":
            # approximation of the integrals at large distances
            n = [rng.randint(7, 10), rng.randint(1, 2), 1]
            rng.shuffle(n)
            req = peec.random_problem(rng, size=n, magnetic=False, freq=rng.choice(["1e5", "1e6", "1e7"]), n_pts=0)
            out.append(item(req, toli="2e-2", integral_simplify=rng.choice([4.0, 5.0, 6.0])))
        elif name == "magnetic":
            req = peec.random_problem(rng, magnetic=True, n_pts=0)
            out.append(item(req))
    return out


COUNTS = {
    "mutated": (900, 9000), "electric": (80, 1000), "static": (120, 1500), "large": (20, 200), "mixed": (90, 1200),
    "lossy": (60, 900), "points": (120, 1500), "inductive": (90, 1200), "line": (24, 300), "simplified": (24, 300),
    "magnetic": (110, 1500), "laws": (50, 600), "tiny": (50, 400), "crowd": (12, 150), "far": (10, 120), "bulk": (12, 150),
}


def run(check):
    (families, batches, own) = PLAN[check.pid]

    for family in families:
        res = check.model(
            "PeecMC", CFG, "exhaustive family %s" % family,
            env={"FAMILY": family, "EMIT": "yes", "TIER": check.tier},
            deadlock=True, workers=8, need=STAGES,
        )
        fam = sorted({x[4:] for x in res["printed"] if x.startswith("REQ ")})
        n_all = len(fam)
        limit = 700 if check.quick else 6000
        if n_all > limit:
            fam = check.rng.sample(fam, limit)
        check.note("family %s: %d problems, %d replayed" % (family, n_all, len(fam)))
        items = [item(json.loads(x), brief=check.pid == "S01") for x in fam]
        records = execute(peec.run_item, items)
        check.judge("PeecTrace", records, "replay of the family %s" % family, own=own, workers=8)

    run_batches(check, batches, own)


def run_batches(check, batches, own):
    """
    Random problems which are judged absolutely.
    """

    for name in batches:
        items = batch(check.rng, name, COUNTS[name][0 if check.quick else 1])
        records = execute(peec.run_item, items)
        check.judge("PeecTrace", records, "random problems: %s" % name, own=own, workers=8, timeout=3000)
