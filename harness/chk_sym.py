"""
Properties which relate several solutions (S06, S07, S08, S12): specification Sym.tla (and Options.tla),
trace specification SymTrace.tla.

TLC transforms recorded problems (and keeps the history of the transformations), the problem and the transformed
problems are solved with the public entry points, TLC brings the solutions back and compares them.
"""

import json

import chk_solver
import peec
from common import execute

CFG = "INIT MCInit\nNEXT MCNext\nINVARIANT Inv\n"
CFG_TRACE = "INIT Init\nNEXT NextSym\n"
CFG_OPT = "INIT Init\nNEXT Next\nINVARIANT TypeOK\n"


def problems(rng, count, magnetic=None, top=4, limit=24, n_pts=None, freqs=None):
    """
    Random base problems.
    """

    out = []
    for _ in range(count):
        mag = rng.random() < 0.6 if magnetic is None else magnetic
        pts = rng.choice([0, 1, 2]) if n_pts is None else n_pts
        req = peec.random_problem(rng, size=chk_solver.size(rng, top, limit), magnetic=mag, n_pts=pts,
                                  freq=None if freqs is None else rng.choice(freqs))
        out.append(req)
    return out


def solve(item):
    """
    Solve a problem and its transformed problems.
    """

    (req, terms) = item
    tol = peec.tolerance()
    return {
        "req": req, "tol": "2e-6", "toli": "1e-6", "tolc": "1e-6", "brief": True,
        "obs": peec.solve(req, tol),
        "terms": [{"how": how, "maystall": False, "obs": peec.solve(new, tol)} for (how, new) in terms],
    }


def transform(check, base, family, depth, sim=0):
    """
    Let TLC transform the problems: {number of the problem: [(history, new problem)]}.
    """

    name = check.scratch.file("problems_%s_%d_%d.ndjson" % (family, depth, len(check.models)))
    with open(name, "w") as fid:
        for req in base:
            fid.write(json.dumps(req) + "\n")
    args = ["-simulate", "num=%d" % sim, "-depth", "40", "-seed", str(check.seed)] if sim else []
    res = check.model(
        "SymMC", CFG, "transformations %s of %d problems, depth %d%s" % (family, len(base), depth, " (random walks)" if sim else ""),
        env={"FAMILY": family, "DEPTH": str(depth), "PROBLEMS": name}, workers=1 if sim else 8, args=args,
    )
    out = {}
    for line in sorted({x for x in res["printed"] if x.startswith("REQ ")}):
        data = json.loads(line[4:])
        req = data["req"]
        # JSON of a function with an empty domain, tuples with a single element
        out.setdefault(data["base"] - 1, []).append((data["how"], req))
    return out


def compare(check, base, new, what, limit):
    """
    One record for each transformed problem.
    """

    items = [(base[k], [x]) for k in sorted(new) for x in new[k]]
    n_all = len(items)
    if n_all > limit:
        items = check.rng.sample(items, limit)
    check.note("%s: %d transformed problems, %d replayed" % (what, n_all, len(items)))
    records = execute(solve, items)
    check.judge("SymTrace", records, what, own=["image:"], cfg=CFG_TRACE, workers=8, timeout=3000)


def run_family(check, family):
    (n1, l1, n2, l2) = {
        True: (14, 260, 60, 240),
        False: (60, 3000, 600, 3000),
    }[check.quick]
    base = problems(check.rng, n1)
    compare(check, base, transform(check, base, family, 1), "each single transformation (%s)" % family, l1)
    base = problems(check.rng, n2)
    compare(check, base, transform(check, base, family, 5, sim=l2), "sequences of transformations (%s)" % family, l2)
    base = problems(check.rng, n2)
    compare(check, base, transform(check, base, "mixed", 5, sim=l2), "sequences of all transformations", l2 // 2)
    # larger structures
    n3 = 10 if check.quick else 80
    base = problems(check.rng, n3, top=8, limit=120)
    compare(check, base, transform(check, base, family, 4, sim=3*n3), "larger structures (%s)" % family, 2*n3)


def run_linear(check):
    (n1, n2) = (40, 60) if check.quick else (120, 400)
    base = problems(check.rng, n1)
    compare(check, base, transform(check, base, "scale", 1), "each scaling", 300 if check.quick else 800)
    n3 = 8 if check.quick else 60
    base = problems(check.rng, n3, top=8, limit=120)
    compare(check, base, transform(check, base, "scale", 1), "scaling of larger structures", 3*n3)
    # superposition: one source at a time, with a factor
    base = [x for x in problems(check.rng, 3*n2) if len(x["srcs"]) > 1][:n2]
    new = transform(check, base, "alone", 2)
    items = []
    for k in sorted(new):
        lives = {}
        for (how, req) in new[k]:
            lives.setdefault(tuple(sorted(how["live"])), []).append((how, req))
        # sources without voxels: nothing to be superposed
        parts = [check.rng.choice(lives[x]) for x in sorted(lives) if x]
        items.append((base[k], parts))
    records = execute(solve, items)
    check.judge("SymTrace", records, "superposition of the sources", own=["image:"], cfg=CFG_TRACE, workers=8, timeout=3000)


# ----------------------------------------------------------------------------
# numerical options
# ----------------------------------------------------------------------------

def set_options(opt):
    """
    Tolerance data for a choice of the options.
    """

    tol = peec.tolerance(
        mult_type=opt["mult"], fft_options__matrix_split=opt["split"], fft_options__library=opt["library"],
        fft_options__scipy_worker=opt["worker"], fft_options__fftw_thread=opt["worker"],
        fft_options__fftw_timeout=None if opt["worker"] == 2 else 100.0,
        factorization_options__library="PyAMG" if opt["factor"] in ["root", "adapt"] else opt["factor"],
        condition_options__check=opt["check"],
        solver_options__coupling=opt["coupling"],
    )
    fact = tol["factorization_options"]
    fact["pyamg_options"].update({"solver": opt["factor"] if opt["factor"] == "adapt" else "root", "krylov": "gmres" if opt["split"] else None})
    fact["pardiso_options"].update({"thread_pardiso": opt["worker"], "thread_mkl": opt["worker"]})
    sol = tol["solver_options"]
    seg = sol["segregated_options"]
    for x in [sol["direct_options"], seg["iter_electric_options"], seg["iter_magnetic_options"]]:
        x["solver"] = opt["solver"]
    seg["relax_electric"] = float(opt["relax"])
    seg["relax_magnetic"] = float(opt["relax"])
    seg["n_max"] = 120
    # a power criterion which is satisfied by an accurate solution only
    sol["power_options"].update({"stop": opt["stop"], "n_min": 6, "n_cmp": 4, "rel_tol": 1e-13, "abs_tol": 1e-200})
    return tol


def solve_option(item):
    """
    Solve a problem with the options of reference, and with another choice.
    """

    import copy
    import standins
    from pypeec import main

    # libraries which are not installed (the options are the same, whatever is installed)
    standins.install()

    (req, opt) = item
    tol = set_options(opt)
    voxel = peec.get_voxel(req)
    problem = peec.get_problem(req)
    if opt["guess"] != "none":
        first = copy.deepcopy(problem["sweep_solver"]["sim"])
        if opt["guess"] == "other":
            first["param"]["freq"] = 2*first["param"]["freq"] + 10.0
            for val in first["param"]["source_val"].values():
                for (k, x) in val.items():
                    if k[0] in "IV":
                        val[k] = [1.5 - 2*v for v in x] if isinstance(x, list) else 1.5 - 2*x
        problem["sweep_solver"] = {"first": first, "sim": {**problem["sweep_solver"]["sim"], "init": "first"}}
    try:
        obs = peec.get_obs(main.run_solver_data(voxel, problem, tol))
    except Exception as ex:  # noqa: BLE001
        obs = {**peec.BLANK, "err": type(ex).__name__ + ": " + str(ex)[:200]}
    count = req["n"][0]*req["n"][1]*req["n"][2]
    how = {"vox": list(range(count)), "axis": [1, 2, 3], "sign": [1, 1, 1], "par": 1, "fac": ["1", "0"],
           "live": list(range(count)), "ops": []}
    # the segregated coupling may stall (both couplings exist): everything else has to converge
    kinds = {x["type"] for x in req["mats"]}
    both = bool(kinds & {"magnetic", "electromagnetic"}) and float(req["freq"]) != 0.0
    stall = opt["coupling"] == "segregated" and both
    return {
        "req": req, "opt": opt, "tol": "2e-6", "toli": "1e-6", "tolc": "1e-6", "brief": True,
        "obs": peec.solve(req, peec.tolerance()),
        "terms": [{"how": how, "maystall": stall, "obs": obs}],
    }


def run_options(check):
    res = check.model("Options", CFG_OPT, "choices of the numerical options", workers=4)
    opts = [json.loads(x[4:]) for x in sorted(res["printed"]) if x.startswith("OPT ")]
    check.rng.shuffle(opts)
    count = 600 if check.quick else 6*len(opts)
    base = problems(check.rng, 180 if check.quick else 1100) + problems(check.rng, 20 if check.quick else 100, top=8, limit=120)
    items = [(base[k % len(base)], opts[k % len(opts)]) for k in range(count)]
    records = execute(solve_option, items)
    n_stall = sum(1 for x in records if x["terms"][0]["maystall"] and not x["terms"][0]["obs"]["converged"])
    check.note("%d choices of options, %d replayed, %d segregated runs without convergence" % (len(opts), min(count, len(opts)), n_stall))
    check.judge("SymTrace", records, "solutions with other options", own=["image:"], cfg=CFG_TRACE, workers=8, timeout=3000)


def run(check):
    if check.pid == "S06":
        run_family(check, "rewrite")
        chk_solver.run_batches(check, ["laws", "static", "lossy", "tiny"], chk_solver.ADMIT + ["circuit:", "magnetic:", "integral:", "power: balance"])
    elif check.pid == "S08":
        run_family(check, "move")
    elif check.pid == "S12":
        run_linear(check)
    else:
        run_options(check)
