"""
Convergence of the solver (S03): specification Converge.tla, trace specification ConvergeTrace.tla.

 - the equation systems and options enumerated by TLC (ConvergeMC.tla) are handed to the equation solver of the
   implementation, and the observed iterations are compared by TLC with the iterations of the specification
 - random problems are solved with the public entry point under random criteria, and TLC judges the reported status
"""

import json

import peec
from common import cplx, dec, execute

CFG = "INIT MCInit\nNEXT MCNext\nINVARIANT Inv\n"
FAMILIES = ["script", "segregated", "direct", "mixed"]
SYMBOLS = "equation_solver.get_solver"


# ----------------------------------------------------------------------------
# equation systems
# ----------------------------------------------------------------------------

def get_options(req):
    """
    Options of the equation solver.
    """

    f = float
    inner = {"solver": "gmres", "rel_tol": f(req["inner"]["rel"]), "abs_tol": f(req["inner"]["abs"]),
             "n_inner": 1, "n_outer": req["inner"]["nouter"]}
    return {
        "coupling": req["coupling"],
        "tolerance_options": {"ignore_status": req["tol"]["nostatus"], "ignore_res": req["tol"]["nores"],
                              "rel_tol": f(req["tol"]["rel"]), "abs_tol": f(req["tol"]["abs"])},
        "power_options": {"stop": req["stop"]["on"], "n_min": req["stop"]["nmin"], "n_cmp": req["stop"]["ncmp"],
                          "rel_tol": f(req["stop"]["rel"]), "abs_tol": f(req["stop"]["abs"])},
        "direct_options": {"solver": "gmres", "rel_tol": f(req["direct"]["rel"]), "abs_tol": f(req["direct"]["abs"]),
                           "n_inner": 1, "n_outer": req["direct"]["nouter"]},
        "segregated_options": {
            "rel_tol": f(req["seg"]["rel"]), "abs_tol": f(req["seg"]["abs"]),
            "relax_electric": f(req["relax"]["e"]), "relax_magnetic": f(req["relax"]["m"]),
            "n_min": req["seg"]["nmin"], "n_max": req["seg"]["nmax"],
            "iter_electric_options": dict(inner), "iter_magnetic_options": dict(inner),
        },
    }


def run_steps(req):
    """
    Solve an equation system with the equation solver.
    """

    import numpy as np
    from pypeec.lib_solver import equation_solver

    (p, q, s, a, b) = (float(req[k]) for k in ["p", "q", "s", "a", "b"])
    rhs = [complex(float(x)) for x in req["rhs"]]
    script = [complex(float(x[0]), float(x[1])) for x in req["script"]]
    count = [0]

    def arr(*x):
        return np.array(x, dtype=np.complex128)

    def power(sol):
        k = count[0]
        count[0] += 1
        if script:
            return np.complex128(script[min(k, len(script)-1)])
        return np.complex128(sol[0].real+sol[1].real+1j*sol[2].real)

    fct_sys = (lambda x: arr(p*x[0], q*x[1]), lambda y: arr(s*y[0]))
    fct_cpl = (lambda y: arr(a*y[0], a*y[0]), lambda x: arr(b*(x[0]+x[1])))
    fct_pcd = (lambda x: np.array(x), lambda y: np.array(y))
    guess = arr(*[float(x) for x in req["guess"]])
    if not np.any(guess):
        guess = None
    obs = {"ok": False, "err": "", "n": -1, "hist": [], "sol": [], "init": cplx("nan"), "final": cplx("nan"),
           "res": "nan", "vec": [], "thr": "nan", "status": False}
    try:
        (sol, res, conv, status, report) = equation_solver.get_solver(
            guess, fct_cpl, fct_sys, fct_pcd, (arr(*rhs[:2]), arr(*rhs[2:])), power, get_options(req))
    except Exception as ex:  # noqa: BLE001
        return {**obs, "err": type(ex).__name__ + ": " + str(ex)[:200]}
    return {
        "ok": True, "err": "", "n": int(report["n_iter"]), "hist": [cplx(x) for x in conv["power_vec"]],
        "sol": [dec(x.real) for x in sol], "init": cplx(conv["power_init"]), "final": cplx(conv["power_final"]),
        "res": dec(report["res_val"]), "vec": [dec(abs(x)) for x in res], "thr": dec(report["res_thr"]),
        "status": bool(status) and bool(report["status"]),
    }


def item_steps(req):
    return {"kind": "steps", "req": req, "obs": run_steps(req)}


def available():
    """
    The equation solver can be called with an equation system (it is an internal interface).
    """

    import inspect
    try:
        from pypeec.lib_solver import equation_solver
        names = list(inspect.signature(equation_solver.get_solver).parameters)
    except Exception:  # noqa: BLE001
        return False
    return names == ["sol_init", "fct_cpl", "fct_sys", "fct_pcd", "rhs", "fct_conv", "solver_options"]


# ----------------------------------------------------------------------------
# problems
# ----------------------------------------------------------------------------

def rand_run(rng):
    """
    Random problem, sweeps, and criteria.
    """

    def log(low, high):
        return float("%.3g" % 10**rng.uniform(low, high))

    while True:
        base = peec.random_problem(rng, n_pts=0)
        # the values of a material without voxels are not specified
        if all(x["var"] == "lumped" or any(base["dom"][t] for t in x["domains"]) for x in base["mats"]):
            break
    sweeps = []
    for k in range(rng.choice([1, 1, 2, 3])):
        req = json.loads(json.dumps(base))
        if k > 0:
            req["freq"] = rng.choice(["0.0", "1000.0", "1e5"])
        sweeps.append({"tag": "s%d" % k, "init": ("s%d" % rng.randrange(k)) if k > 0 and rng.random() < 0.5 else None, "req": req})

    def it():
        return {"solver": "gmres" if rng.random() < 0.8 else "gcrot", "rel_tol": log(-9, -2), "abs_tol": log(-12, -6),
                "n_inner": rng.choice([1, 2, 3, 5, 20]), "n_outer": rng.choice([1, 2, 4, 8, 20])}

    opt = peec.tolerance()
    opt["solver_options"] = {
        "coupling": rng.choice(["direct", "segregated"]),
        "tolerance_options": {"ignore_status": rng.random() < 0.4, "ignore_res": rng.random() < 0.4,
                              "rel_tol": log(-9, 0) if rng.random() < 0.8 else log(-20, -12), "abs_tol": log(-12, -3) if rng.random() < 0.7 else log(-25, -14)},
        "power_options": {"stop": rng.random() < 0.5, "n_min": rng.randint(1, 6), "n_cmp": rng.randint(1, 4),
                          "rel_tol": log(-8, 0), "abs_tol": log(-12, -2)},
        "direct_options": it(),
        "segregated_options": {
            "rel_tol": log(-9, -1), "abs_tol": log(-12, -4), "relax_electric": rng.choice([1.0, 1.0, 0.8, 1.1]),
            "relax_magnetic": rng.choice([1.0, 1.0, 0.8, 1.1]), "n_min": rng.randint(1, 4), "n_max": rng.randint(3, 15),
            "iter_electric_options": it(), "iter_magnetic_options": it(),
        },
    }
    opt["condition_options"] = {
        "check": rng.random() < 0.7, "tolerance_electric": log(0, 8), "tolerance_magnetic": rng.choice([log(0, 8), 1e15]),
        "norm_options": {"t_accuracy": 2, "n_iter_max": 25},
    }
    return {"base": base, "sweeps": sweeps, "opt": opt}


def excitation(req):
    """
    Right-hand side: source values of the voxels (lumped currents are shared equally).
    """

    out = []
    for src in req["srcs"]:
        count = sum(len(req["dom"][t]) for t in src["domains"])
        (re, im) = ("I_re", "I_im") if src["type"] == "current" else ("V_re", "V_im")
        for k in range(count):
            if src["var"] == "lumped":
                val = complex(float(src["val"][re]), float(src["val"][im]))
                out.append(val/count if src["type"] == "current" else val)
            else:
                out.append(complex(float(src["val"][re][k]), float(src["val"][im][k])))
    return [cplx(x) for x in out]


def run_run(item):
    """
    Solve a problem and record the reported status.
    """

    from pypeec import main

    opt = item["opt"]
    sol = opt["solver_options"]
    seg = sol["segregated_options"]
    gmres = sol["direct_options"]["solver"] == "gmres"
    req = {
        "coupling": sol["coupling"],
        "seg": {"rel": dec(seg["rel_tol"]), "abs": dec(seg["abs_tol"]), "nmin": seg["n_min"], "nmax": seg["n_max"]},
        "direct": {"rel": dec(sol["direct_options"]["rel_tol"]), "abs": dec(sol["direct_options"]["abs_tol"]),
                   "nouter": sol["direct_options"]["n_outer"], "gmres": gmres},
        "stop": {"on": sol["power_options"]["stop"], "nmin": sol["power_options"]["n_min"], "ncmp": sol["power_options"]["n_cmp"],
                 "rel": dec(sol["power_options"]["rel_tol"]), "abs": dec(sol["power_options"]["abs_tol"])},
        "tol": {"nostatus": sol["tolerance_options"]["ignore_status"], "nores": sol["tolerance_options"]["ignore_res"],
                "rel": dec(sol["tolerance_options"]["rel_tol"]), "abs": dec(sol["tolerance_options"]["abs_tol"])},
        "cond": {"check": opt["condition_options"]["check"], "e": dec(opt["condition_options"]["tolerance_electric"]),
                 "m": dec(opt["condition_options"]["tolerance_magnetic"])},
        "script": [],
    }
    problem = {**peec.get_def(item["base"]), "sweep_solver": {
        x["tag"]: {"init": x["init"], "param": peec.get_param(x["req"])} for x in item["sweeps"]}}
    obs = {"ok": False, "err": "", "hist": [], "sweeps": [], "status": False}
    rec = {"kind": "run", "req": req, "problem": item["base"], "obs": obs}
    try:
        data = main.run_solver_data(peec.get_voxel(item["base"]), problem, opt)
    except Exception as ex:  # noqa: BLE001
        obs["err"] = type(ex).__name__ + ": " + str(ex)[:200]
        return rec
    obs["ok"] = True
    obs["status"] = bool(data["status"])
    size = data["data_init"]["problem_status"]
    for x in item["sweeps"]:
        out = data["data_sweep"][x["tag"]]
        (sta, cond, conv) = (out["solver_status"], out["condition_status"], out["conv"])
        obs["sweeps"].append({
            "guess": x["init"] is not None, "n": int(sta["n_iter"]), "hist": [cplx(p) for p in conv["power_vec"]],
            "init": cplx(conv["power_init"]), "final": cplx(conv["power_final"]), "total": cplx(out["integral"]["S_total"]),
            "res": dec(sta["res_val"]), "thr": dec(sta["res_thr"]), "vec": [cplx(r) for r in out["res"]],
            "rhs": excitation(x["req"]), "solver": bool(sta["status"]), "solver2": bool(out["solver_ok"]),
            "check": bool(cond["check"]), "conde": dec(cond["cond_electric"]), "condm": dec(cond["cond_magnetic"]),
            "cond": bool(cond["status"]), "cond2": bool(out["condition_ok"]), "converged": bool(out["has_converged"]),
            "ndof": int(sta["n_dof_total"]), "nface": int(size["n_face_electric"])+int(size["n_face_magnetic"]),
            "nvox": int(size["n_voxel_electric"])+int(size["n_voxel_magnetic"]),
            "nsrc": int(size["n_src_current"])+int(size["n_src_voltage"]),
        })
    return rec


def run(check):
    direct = available()
    if not direct:
        check.note("the interface of %s has changed: only the public entry point is used" % SYMBOLS)
    for family in FAMILIES:
        res = check.model("ConvergeMC", CFG, "family %s" % family, env={"FAMILY": family, "TIER": check.tier},
                          deadlock=True, workers=8, need=["Emit"])
        fam = sorted({x[4:] for x in res["printed"] if x.startswith("REQ ")})
        limit = 700 if check.quick else 8000
        n_all = len(fam)
        if n_all > limit:
            fam = check.rng.sample(fam, limit)
        check.note("family %s: %d systems, %d replayed" % (family, n_all, len(fam)))
        if direct:
            records = execute(item_steps, [json.loads(x) for x in fam])
            check.judge("ConvergeTrace", records, "replay of the family %s" % family, workers=8, timeout=2000)
    items = [rand_run(check.rng) for _ in range(240 if check.quick else 3000)]
    records = execute(run_run, items)
    check.judge("ConvergeTrace", records, "random problems and criteria", workers=8, timeout=2000)
