"""
Solver problems: random generation, execution with the public entry points, and recording.

A problem is described as the specification (Peec.tla) sees it: all real numbers are decimal strings.
"""

import copy

from common import cplx, dec

# ----------------------------------------------------------------------------
# numerical options
# ----------------------------------------------------------------------------

TOLERANCE = {
    "parallel_sweep": {"n_jobs": 0, "n_threads": None},
    "integral_simplify": 20.0,
    "biot_savart": "face",
    "mult_type": "fft",
    "fft_options": {
        "matrix_split": True, "library": "SciPy", "scipy_worker": 0,
        "fftw_thread": 0, "fftw_timeout": 100.0, "fftw_byte_align": 16,
    },
    "factorization_options": {
        "library": "SuperLU",
        "pyamg_options": {"tol": 1e-6, "solver": "root", "krylov": None},
        "pardiso_options": {"thread_pardiso": 0, "thread_mkl": 0},
    },
    "solver_options": {
        "coupling": "direct",
        "tolerance_options": {"ignore_status": False, "ignore_res": True, "rel_tol": 1e-3, "abs_tol": 1e-9},
        "power_options": {"stop": False, "n_min": 4, "n_cmp": 3, "rel_tol": 1e-4, "abs_tol": 1e-10},
        "direct_options": {"solver": "gmres", "rel_tol": 1e-12, "abs_tol": 1e-200, "n_inner": 60, "n_outer": 60},
        "segregated_options": {
            "rel_tol": 1e-11, "abs_tol": 1e-200, "relax_electric": 1.0, "relax_magnetic": 1.0,
            "n_min": 2, "n_max": 60,
            "iter_electric_options": {"solver": "gmres", "rel_tol": 1e-12, "abs_tol": 1e-200, "n_inner": 60, "n_outer": 60},
            "iter_magnetic_options": {"solver": "gmres", "rel_tol": 1e-12, "abs_tol": 1e-200, "n_inner": 60, "n_outer": 60},
        },
    },
    "condition_options": {
        "check": True, "tolerance_electric": 1e20, "tolerance_magnetic": 1e20,
        "norm_options": {"t_accuracy": 2, "n_iter_max": 25},
    },
}


def tolerance(**kwargs):
    """
    Numerical options (accurate solution), with some values replaced ("a__b" is a path).
    """

    out = copy.deepcopy(TOLERANCE)
    for key, val in kwargs.items():
        path = key.split("__")
        tmp = out
        for x in path[:-1]:
            tmp = tmp[x]
        assert path[-1] in tmp, key
        tmp[path[-1]] = val
    return out


# ----------------------------------------------------------------------------
# execution
# ----------------------------------------------------------------------------

def num(val):
    """
    Decimals to floats, recursively.
    """

    if isinstance(val, (list, tuple)):
        return [num(x) for x in val]
    return float(val)


def get_geometry(req):
    """
    Geometry of the voxel structure of a problem.
    """

    return {
        "mesh_type": "voxel",
        "data_voxelize": {
            "param": {"n": list(req["n"]), "d": num(req["d"]), "c": num(req["c"])},
            "domain_index": {t: list(i) for t, i in req["dom"].items()},
        },
        "data_point": {"check_cloud": False, "full_cloud": False, "pts_cloud": num(req["pts"])},
        "data_resampling": {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": False, "resolve_random": False, "conflict_rules": []},
        "data_integrity": {"domain_connected": {}, "domain_adjacent": {}},
    }


def get_voxel(req):
    """
    Mesh the voxel structure of a problem.
    """

    from pypeec import main

    return main.run_mesher_data(get_geometry(req))


def get_def(req):
    """
    Definition of the materials and sources.
    """

    return {
        "material_def": {
            x["tag"]: {"domain_list": list(x["domains"]), "material_type": x["type"],
                       "orientation_type": x["orient"], "var_type": x["var"]}
            for x in req["mats"]
        },
        "source_def": {
            x["tag"]: {"domain_list": list(x["domains"]), "source_type": x["type"], "var_type": x["var"]}
            for x in req["srcs"]
        },
    }


def get_param(req):
    """
    Parameters of a sweep.
    """

    return {
        "freq": float(req["freq"]),
        "material_val": {x["tag"]: {k: num(v) for k, v in x["val"].items()} for x in req["mats"] if x["given"]},
        "source_val": {x["tag"]: {k: num(v) for k, v in x["val"].items()} for x in req["srcs"] if x["given"]},
    }


def get_problem(req):
    """
    Problem data with a single sweep.
    """

    return {**get_def(req), "sweep_solver": {"sim": {"init": None, "param": get_param(req)}}}


def flat(val):
    return [cplx(x) for x in val]


BLANK = {
    "ok": False, "err": "", "converged": False, "status": False, "idx_vc": [], "idx_vm": [],
    "V_c": [], "P_c": [], "S_c": [], "J_c": [], "V_m": [], "P_m": [], "Q_m": [], "B_m": [], "H_p": [],
    "source": {}, "material": {}, "S_total": ["nan", "nan"], "conv": [],
    **{k: "nan" for k in ["P_electric", "P_magnetic", "P_total", "W_electric", "W_magnetic", "W_total"]},
    **{k: -1 for k in ["n_voxel_total", "n_face_total", "n_voxel_used", "n_face_used", "n_voxel_electric",
                       "n_voxel_magnetic", "n_face_electric", "n_face_magnetic", "n_src_current", "n_src_voltage"]},
    "ratio_voxel": "nan", "ratio_face": "nan",
    "grid": {"n": [], "d": [], "c": [], "pts": [], "pos_c": [], "pos_m": [], "freq": "nan"},
}


def get_obs(data, tag="sim"):
    """
    Observation of a solution (one sweep).
    """

    init = data["data_init"]
    sweep = data["data_sweep"][tag]
    var = sweep["var"]
    sta = init["problem_status"]
    integral = sweep["integral"]
    obs = {
        "ok": True, "err": "",
        "converged": sweep["has_converged"] is True or bool(sweep["has_converged"]),
        "status": bool(data["status"]),
        "idx_vc": [int(i) for i in init["idx_vc"]], "idx_vm": [int(i) for i in init["idx_vm"]],
        "source": {t: {k: cplx(x[k]) for k in ["V", "I", "S"]} for t, x in sweep["source"].items()},
        "material": {t: {k: dec(x[k]) for k in ["P_electric", "P_magnetic", "P_total"]} for t, x in sweep["material"].items()},
        "S_total": cplx(integral["S_total"]),
        "conv": [cplx(x) for x in [sweep["conv"]["power_final"]] if x is not None],
    }
    for k in ["V_c", "P_c", "S_c", "V_m", "P_m", "Q_m"]:
        obs[k] = flat(var[k]["var"])
    for k in ["J_c", "B_m", "H_p"]:
        obs[k] = [flat(x) for x in var[k]["var"]]
    for k in ["P_electric", "P_magnetic", "P_total", "W_electric", "W_magnetic", "W_total"]:
        obs[k] = dec(integral[k])
    for k in BLANK:
        if k.startswith("n_"):
            obs[k] = int(sta[k])
    obs["ratio_voxel"] = dec(sta["ratio_voxel"])
    obs["ratio_face"] = dec(sta["ratio_face"])
    obs["grid"] = {
        "n": [int(x) for x in init["n"]], "d": [dec(x) for x in init["d"]], "c": [dec(x) for x in init["c"]],
        "pts": [[dec(x) for x in p] for p in init["pts_cloud"]],
        "pos_c": [[dec(x) for x in p] for p in init["pts_net_c"]],
        "pos_m": [[dec(x) for x in p] for p in init["pts_net_m"]],
        "freq": dec(sweep["freq"]),
    }
    return obs


def solve(req, tol):
    """
    Solve a problem and record the outcome (an exception is a refusal).
    """

    from pypeec import main

    try:
        voxel = get_voxel(req)
    except Exception as ex:
        raise RuntimeError("mesher refused the structure of a solver problem: %s" % ex)
    try:
        data = main.run_solver_data(voxel, get_problem(req), tol)
    except Exception as ex:  # noqa: BLE001
        return {**BLANK, "err": type(ex).__name__ + ": " + str(ex)[:200]}
    try:
        return get_obs(data)
    except Exception as ex:  # noqa: BLE001
        return {**BLANK, "ok": True, "err": "malformed: " + type(ex).__name__ + ": " + str(ex)[:200]}


def run_item(item):
    """
    Execute an item: problem, options, and tolerances of the judgement.
    """

    tol = dict(item["opt"])
    tol["biot_savart"] = item["req"]["field"]
    return {**{k: v for k, v in item.items() if k != "opt"}, "obs": solve(item["req"], tol)}


# ----------------------------------------------------------------------------
# random problems
# ----------------------------------------------------------------------------

def rand_val(rng, low, high):
    """
    Positive decimal, log-uniform.
    """

    import math

    return repr(float("%.4g" % math.exp(rng.uniform(math.log(low), math.log(high)))))


def components(n, vox):
    """
    Connected components (only used to place the sources of the generated problems).
    """

    todo = set(vox)
    out = []
    while todo:
        front = [todo.pop()]
        comp = set(front)
        while front:
            i = front.pop()
            p = (i % n[0], (i // n[0]) % n[1], i // (n[0]*n[1]))
            for (a, s) in ((0, 1), (1, n[0]), (2, n[0]*n[1])):
                for (ok, j) in ((p[a] < n[a]-1, i+s), (p[a] > 0, i-s)):
                    if ok and j in todo:
                        todo.remove(j)
                        comp.add(j)
                        front.append(j)
        out.append(sorted(comp))
    return out


def split(rng, items, k):
    """
    Partition of a list in at most k non-empty parts.
    """

    items = list(items)
    rng.shuffle(items)
    parts = [[] for _ in range(k)]
    for (m, x) in enumerate(items):
        parts[m if m < k else rng.randrange(k)].append(x)
    return [p for p in parts if p]


def shape(rng, count, lumped, orient, gen):
    """
    Value of a material field in the requested format.
    """

    if lumped:
        return gen() if orient == "isotropic" else [gen() for _ in range(3)]
    return [gen() if orient == "isotropic" else [gen() for _ in range(3)] for _ in range(count)]


def random_problem(rng, size=None, magnetic=None, freq=None, n_pts=2, real=False, cells=None):
    """
    Random well-posed problem.
    """

    n = list(size) if size else [rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)]
    if size is None:
        rng.shuffle(n)
    nv = n[0]*n[1]*n[2]
    d = [rng.choice(["1e-3", "2e-3", "5e-4", "1.5e-3"]) for _ in range(3)]
    c = [rng.choice(["0.0", "0.01", "-0.002"]) for _ in range(3)]

    # electric voxels, and terminals for each component
    density = rng.choice([0.4, 0.7, 1.0])
    if cells is None:
        vox = [i for i in range(nv) if rng.random() < density] or [rng.randrange(nv)]
    else:
        vox = list(cells)
    if magnetic is None:
        magnetic = rng.random() < 0.4
    mag = []
    both = []
    if magnetic:
        for i in list(vox):
            if rng.random() < 0.35 and len(vox) > 1:
                vox.remove(i)
                mag.append(i)
        mag += [i for i in range(nv) if i not in vox and i not in mag and rng.random() < 0.5]
        if rng.random() < 0.4:
            both = [i for i in vox if rng.random() < 0.4]

    comps = components(n, vox)
    term = []
    fixed = []
    for comp in comps:
        k = rng.choice([1, 2, 2, 3])
        pick = rng.sample(comp, min(k, len(comp)))
        fixed.append(pick[0])
        term += pick[1:]

    dom = {}

    def add(prefix, idx):
        name = "%s%d" % (prefix, len(dom))
        idx = list(idx)
        rng.shuffle(idx)
        dom[name] = idx
        return name

    # sources: the fixed terminals get a reference of the potential
    srcs = []

    def add_source(idx, ref):
        kind = rng.choice(["voltage", "current"])
        var = rng.choice(["lumped", "lumped", "distributed"])
        names = [add("t", p) for p in split(rng, idx, rng.choice([1, 1, 2, 3]))]
        rng.shuffle(names)
        count = len(idx)

        def signed(low, high):
            return lambda: repr(float(rand_val(rng, low, high)) * rng.choice([1, -1]))

        def dist(gen):
            return gen() if var == "lumped" else [gen() for _ in range(count)]

        def zero():
            return "0.0"

        lossy = ref or rng.random() < 0.5
        if kind == "current":
            # a reference needs a finite admittance
            val = {"I_re": dist(signed(0.1, 10)), "I_im": dist(signed(0.1, 10) if rng.random() < 0.5 else zero),
                   "Y_re": dist((lambda: rand_val(rng, 1.0, 100)) if lossy else zero),
                   "Y_im": dist(signed(0.1, 10) if lossy and rng.random() < 0.3 else zero)}
        else:
            val = {"V_re": dist(signed(0.1, 10)), "V_im": dist(signed(0.1, 10) if rng.random() < 0.5 else zero),
                   "Z_re": dist((lambda: rand_val(rng, 1e-2, 1.0)) if rng.random() < 0.6 else zero),
                   "Z_im": dist(signed(1e-3, 0.1) if rng.random() < 0.3 else zero)}
        if real:
            val = {k: (dist(zero) if k.endswith("_im") else v) for k, v in val.items()}
        srcs.append({"tag": "src%d" % len(srcs), "type": kind, "var": var, "domains": names, "val": val, "given": True})

    parts = split(rng, fixed, rng.choice([1, 2]))
    for p in parts:
        add_source(p, True)
    if term:
        for p in split(rng, term, rng.choice([1, 2])):
            add_source(p, False)
    rng.shuffle(srcs)

    # materials: the terminals and the rest of the electric voxels
    used = {i for x in dom.values() for i in x}
    rest = [i for i in vox if i not in used]
    if rest:
        for p in split(rng, [i for i in rest if i not in both], rng.choice([1, 2])):
            add("c", p)
        if any(i in both for i in rest):
            add("b", [i for i in rest if i in both])
    groups = {"electric": [], "electromagnetic": [], "magnetic": []}
    for t in dom:
        groups["electromagnetic" if t.startswith("b") else "electric"].append(t)
    if mag:
        for p in split(rng, mag, rng.choice([1, 2])):
            groups["magnetic"].append(add("m", p))
    # an empty domain changes nothing
    if rng.random() < 0.15:
        groups["electric"].append(add("c", []))

    mats = []
    for (kind, names) in groups.items():
        if not names:
            continue
        for part in split(rng, names, rng.choice([1, 2, 3])):
            rng.shuffle(part)
            count = sum(len(dom[t]) for t in part)
            var = rng.choice(["lumped", "distributed"])
            orient = rng.choice(["isotropic", "anisotropic"])
            val = {}

            def put(field, gen):
                val[field] = shape(rng, count, var == "lumped", orient, gen)

            if kind != "magnetic":
                put("rho_re", lambda: rand_val(rng, 1e-5, 1e-3))
                put("rho_im", (lambda: repr(float(rand_val(rng, 1e-6, 1e-4)) * rng.choice([1, -1])))
                    if rng.random() < 0.3 and not real else (lambda: "0.0"))
            if kind != "electric":
                put("chi_re", lambda: rand_val(rng, 1.0, 50.0))
                put("chi_im", (lambda: rand_val(rng, 0.05, 5.0)) if rng.random() < 0.6 else (lambda: "0.0"))
            mats.append({"tag": "mat%d" % len(mats), "type": kind, "orient": orient, "var": var,
                         "domains": part, "val": val, "given": True})
    rng.shuffle(mats)

    # shuffled declaration order of the domains
    names = list(dom)
    rng.shuffle(names)
    dom = {t: dom[t] for t in names}

    # points outside of the structure
    pts = []
    for _ in range(n_pts):
        pt = []
        for a in range(3):
            pt.append(float(c[a]) + float(d[a]) * rng.choice([-2.6, -1.3, 0.2, 1.7, 3.1]))
        a = rng.randrange(3)
        pt[a] = float(c[a]) + float(d[a]) * (n[a]/2 + rng.uniform(1.0, 4.0)) * rng.choice([-1, 1])
        pts.append([repr(float("%.6g" % x)) for x in pt])

    if freq is None:
        freq = rng.choice(["0.0", "0.0", "50.0", "1000.0", "25000.0", "1e6", "0.3", "0.002", "1.0"])
    req = {"n": n, "d": d, "c": c, "dom": dom, "mats": mats, "srcs": srcs, "freq": freq, "pts": pts,
           "field": rng.choice(["face", "voxel"])}
    if rng.random() < 0.3:
        confuse(rng, req)
    return req


CONFUSING = ["a", "A", "a ", "a_b", "b_a", "1", "10", "01", "x.y", "src0", "mat0", "total", "None", "a a", "-", "idx", "ab", "aB"]


def confuse(rng, req):
    """
    Names which are easily confused (the domains, materials, and sources may have the same names).
    """

    names = rng.sample(CONFUSING, len(CONFUSING))
    names += ["%s%d" % (x, k) for k in range(10) for x in CONFUSING[:6]]
    dom = {t: names[k] for (k, t) in enumerate(req["dom"])}
    req["dom"] = {dom[t]: v for (t, v) in req["dom"].items()}
    for group in (req["mats"], req["srcs"]):
        for (k, x) in enumerate(group):
            x["tag"] = names[k]
            x["domains"] = [dom[t] for t in x["domains"]]
    return req


def complex_values(rng, req):
    """
    Imaginary parts for all the materials (with the signs of lossy materials) and for all the sources.
    """

    def fill(val, gen):
        return [fill(x, gen) for x in val] if isinstance(val, list) else gen()

    for x in req["mats"]:
        if "rho_im" in x["val"]:
            x["val"]["rho_im"] = fill(x["val"]["rho_im"], lambda: repr(float(rand_val(rng, 1e-5, 1e-3)) * rng.choice([1, -1])))
        if "chi_im" in x["val"]:
            x["val"]["chi_im"] = fill(x["val"]["chi_im"], lambda: rand_val(rng, 0.5, 20.0))
    for x in req["srcs"]:
        for k in x["val"]:
            if k in ["I_im", "V_im", "Z_im", "Y_im"]:
                x["val"][k] = fill(x["val"][k], lambda: repr(float(rand_val(rng, 0.1, 1.0)) * rng.choice([1, -1])))
    return req


def mutate(rng, req):
    """
    Random change of a problem: most of them make it ill-posed.
    """

    req = copy.deepcopy(req)
    kind = rng.choice(["mat_name", "src_name", "mat_given", "src_given", "mat_len", "src_len", "drop_mat",
                       "drop_src", "move_src", "no_electric", "empty_src", "cut_src", "cut_src", "cut_src", "triple", "swap_type", "none"])
    mat = rng.choice(req["mats"])
    src = rng.choice(req["srcs"])
    names = list(req["dom"])
    if kind == "mat_name":
        mat["domains"].insert(rng.randint(0, len(mat["domains"])), "unknown")
    elif kind == "src_name":
        src["domains"].insert(rng.randint(0, len(src["domains"])), "unknown")
    elif kind == "mat_given":
        mat["given"] = False
    elif kind == "src_given":
        src["given"] = False
    elif kind == "mat_len":
        # wrong number of values in a single field (or in all of them)
        pick = [x for x in req["mats"] if x["var"] == "distributed" and x["val"]]
        if pick:
            mat = rng.choice(pick)
            fields = list(mat["val"]) if rng.random() < 0.3 else [rng.choice(list(mat["val"]))]
            cut = rng.random() < 0.5
            for f in fields:
                v = mat["val"][f]
                mat["val"][f] = v[:-1] if cut else v + v[-1:]
    elif kind == "src_len":
        pick = [x for x in req["srcs"] if x["var"] == "distributed"]
        if pick:
            src = rng.choice(pick)
            fields = list(src["val"]) if rng.random() < 0.3 else [rng.choice(list(src["val"]))]
            cut = rng.random() < 0.5
            for f in fields:
                v = src["val"][f]
                src["val"][f] = v[:-1] if cut else v + v[-1:]
    elif kind == "drop_mat" and len(req["mats"]) > 1:
        req["mats"].remove(mat)
    elif kind == "drop_src" and len(req["srcs"]) > 1:
        req["srcs"].remove(src)
    elif kind == "move_src":
        src["domains"] = [rng.choice(names)]
        src["var"] = "lumped"
        src["val"] = {k: (v[0] if isinstance(v, list) else v) for k, v in src["val"].items()}
    elif kind == "no_electric":
        for x in req["mats"]:
            if x["type"] != "magnetic":
                x["type"] = "magnetic"
                x["val"]["chi_re"] = copy.deepcopy(x["val"]["rho_re"])
                x["val"]["chi_im"] = copy.deepcopy(x["val"]["rho_im"])
    elif kind == "empty_src":
        for x in req["srcs"]:
            x["domains"] = []
            x["val"] = {k: ([] if isinstance(v, list) else v) for k, v in x["val"].items()}
    elif kind == "cut_src":
        # terminals lose their source
        pick = [x for x in req["srcs"] if len(x["domains"]) > 1]
        if len(req["srcs"]) > 1 and (not pick or rng.random() < 0.5):
            req["srcs"].remove(src)
        elif pick:
            src = rng.choice(pick)
            src["domains"].remove(rng.choice(src["domains"]))
            src["val"] = {k: (v[0] if isinstance(v, list) else v) for k, v in src["val"].items()}
            src["var"] = "lumped"
    elif kind == "triple":
        pick = [x for x in req["mats"] if x["orient"] == "anisotropic" and x["val"]]
        if pick:
            mat = rng.choice(pick)
            f = rng.choice(list(mat["val"]))
            extra = rng.random() < 0.5

            def bad(v):
                return v + v[-1:] if extra else v[:-1]

            if mat["var"] == "lumped":
                mat["val"][f] = bad(mat["val"][f])
            elif mat["val"][f]:
                mat["val"][f] = [bad(v) for v in mat["val"][f]]
    elif kind == "swap_type":
        # a material of another kind: the sources may be outside
        mat["type"] = rng.choice(["electric", "magnetic", "electromagnetic"])
        count = sum(len(req["dom"][t]) for t in mat["domains"])
        for f in ("rho_re", "rho_im", "chi_re", "chi_im"):
            if f not in mat["val"]:
                one = "2.0" if f == "chi_re" else ("1e-4" if f == "rho_re" else "0.0")
                mat["val"][f] = shape(rng, count, mat["var"] == "lumped", mat["orient"], lambda: one)
    return req
