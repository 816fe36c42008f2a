"""
Properties of the utility modules (W05 impedance matrix, W06 voxel indices, W07 Fourier series).
"""

import copy
import itertools
import json

from common import cplx, dec, execute


def same(a, b):
    """
    Identical data (containers, arrays, and numbers).
    """

    import numpy as np

    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b))
    return a == b


# ----------------------------------------------------------------------------
# voxel indices
# ----------------------------------------------------------------------------

def run_index(req):
    import numpy as np
    from pypeec.utils import voxel

    def call(kind, idx):
        fct = voxel.get_idx_tensor if kind == "linear" else voxel.get_idx_linear
        try:
            return {"ok": True, "val": np.array(fct(tuple(req["n"]), idx)).tolist()}
        except ValueError:
            return {"ok": False, "val": []}
        except Exception as ex:  # noqa: BLE001
            return {"ok": True, "val": [], "err": type(ex).__name__}

    shape = {"list": lambda x: x, "array": lambda x: np.array(x, dtype=np.int64)}[req["how"]]
    given = shape(copy.deepcopy(req["idx"]))
    ref = copy.deepcopy(given)
    first = call(req["kind"], given)
    second = {"ok": False, "val": []}
    if first["ok"]:
        second = call("tensor" if req["kind"] == "linear" else "linear", shape(first["val"]))
    return {"req": req, "obs": {"first": first, "second": second, "kept": same(given, ref)}}


def run_indices(check):
    res = check.model("IndicesMC", "INIT Init\nNEXT Next\nINVARIANT IdxInv\n", "all the indices of and around the grids up to 3x3x3",
                      deadlock=True, workers=8, need=["Forward", "Backward"])
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    reqs = [{**x, "how": how} for x in fam for how in ["list", "array"]]
    check.judge("IndicesTrace", execute(run_index, reqs), "replay of the exhaustive family", workers=8)
    rng = check.rng
    reqs = []
    for _ in range(1500 if check.quick else 20000):
        n = [rng.choice([1, 2, 3, 5, 7, 11, rng.randint(1, 60)]) for _ in range(3)]
        kind = rng.choice(["linear", "tensor"])
        count = rng.randint(1, 12)
        if kind == "linear":
            idx = [rng.randrange(n[0]*n[1]*n[2]) for _ in range(count)]
            if rng.random() < 0.3:
                idx[rng.randrange(count)] = rng.choice([-1, n[0]*n[1]*n[2], n[0]*n[1]*n[2]+3, -n[0]*n[1]*n[2]])
        else:
            idx = [[rng.randrange(x) for x in n] for _ in range(count)]
            if rng.random() < 0.5:
                a = rng.randrange(3)
                idx[rng.randrange(count)][a] = rng.choice([-1, n[a], n[a]+1, max(n), max(n)-1, -n[a]])
        reqs.append({"n": n, "kind": kind, "idx": idx, "how": rng.choice(["list", "array"])})
    check.judge("IndicesTrace", execute(run_index, reqs), "random grids and indices", workers=8)
    reqs = [large_index(rng) for _ in range(200 if check.quick else 4000)]
    check.judge("IndicesTrace", execute(run_large, reqs), "indices of very large structures", workers=8)


def large_index(rng):
    """
    Structures with more voxels than the range of narrow integers.
    """

    n = [rng.choice([1, 2, 7, 300, 2000, 65536, 100000, rng.randint(1, 50000)]) for _ in range(3)]
    while n[0]*n[1]*n[2] > 10**17:
        n[rng.randrange(3)] = rng.randint(1, 3000)
    total = n[0]*n[1]*n[2]
    kind = rng.choice(["linear", "tensor"])
    pos = [[rng.choice([rng.randrange(x), x-1]) for x in n] for _ in range(rng.randint(1, 4))]
    if kind == "tensor":
        idx = pos
        if rng.random() < 0.3:
            a = rng.randrange(3)
            idx[-1][a] = rng.choice([-1, n[a]])
    else:
        idx = [p[0] + n[0]*(p[1] + n[1]*p[2]) for p in pos]
        if rng.random() < 0.3:
            idx[-1] = rng.choice([-1, total])
    return {"n": n, "kind": kind, "idx": idx, "how": rng.choice(["list", "array"])}


def run_large(req):
    rec = run_index(req)
    text = lambda x: [text(y) for y in x] if isinstance(x, list) else str(x)  # noqa: E731
    obs = rec["obs"]
    for key in ["first", "second"]:
        obs[key] = {**obs[key], "val": text(obs[key]["val"])}
    return {"req": {**req, "idx": text(req["idx"]), "large": True}, "obs": obs}


# ----------------------------------------------------------------------------
# Fourier series
# ----------------------------------------------------------------------------

def run_fourier(req):
    import numpy as np
    from pypeec.utils import fourier

    none = {"ok": False, "val": []}
    obs = {"series": dict(none), "signal": dict(none), "time": [], "freq": [], "kept": True}

    def analyse(sig, count):
        ref = sig.copy()
        out = fourier.get_fft(sig, n_freq=count) if count is not None else fourier.get_fft(sig)
        obs["kept"] = obs["kept"] and same(sig, ref)
        obs["series"] = {"ok": True, "val": [cplx(x) for x in out]}
        return np.array(out)

    def synthesise(ser, count):
        ref = ser.copy()
        out = fourier.get_ifft(ser, n_time=count) if count is not None else fourier.get_ifft(ser)
        obs["kept"] = obs["kept"] and same(ser, ref) and bool(np.all(np.isreal(out)))
        obs["signal"] = {"ok": True, "val": [dec(x) for x in out]}
        return np.array(out)

    samples = req["samples"] or None
    try:
        if req["start"] == "signal":
            ser = analyse(np.array([float(x) for x in req["signal"]]), req["count"] or None)
            sig = synthesise(ser, samples)
        else:
            val = np.array([complex(float(x), float(y)) for (x, y) in req["series"]])
            if req["real"]:
                val = val.real.copy()
            sig = synthesise(val, samples)
            ser = analyse(sig, len(val))
        freq = float(req["freq"])
        obs["time"] = [dec(x) for x in fourier.get_time(freq, len(sig))]
        obs["freq"] = [dec(x) for x in fourier.get_freq(freq, len(ser))]
    except Exception as ex:  # noqa: BLE001
        obs["err"] = type(ex).__name__ + ": " + str(ex)[:80]
    return {"req": req, "obs": obs}


def run_series(check):
    res = check.model("FourierMC", "INIT Init\nNEXT Next\nINVARIANT FourierInv\n", "all the short signals and series",
                      deadlock=True, workers=8, need=["Analyse", "Synthesise", "Again"])
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    reqs = [{**x, "freq": "50.0", "real": False} for x in fam]
    check.judge("FourierTrace", execute(run_fourier, reqs), "replay of the exhaustive family", workers=8)
    rng = check.rng
    reqs = []
    for _ in range(300 if check.quick else 3000):
        scale = rng.choice([1.0, 1.0, 1e-9, 1e6])
        num = lambda: dec(scale*rng.choice([0.0, 1.0, rng.uniform(-2, 2)]))  # noqa: E731
        freq = dec(rng.choice([1.0, 50.0, 1e6, 0.3]))
        if rng.random() < 0.5:
            n = rng.choice([1, rng.randint(2, 24), rng.randint(2, 24), rng.randint(2, 24), rng.randint(25, 90)])
            reqs.append({"start": "signal", "signal": [num() for _ in range(n)], "series": [], "count": rng.choice([0, 0, 1, n//2, n//2+1, n, 2*n, n//2+3]),
                         "samples": rng.choice([n, n, n+1, 2*n, max(1, n//2), 3]), "freq": freq, "real": False})
            if reqs[-1]["count"] == 1 and reqs[-1]["samples"] == 0:
                reqs[-1]["samples"] = n
        else:
            k = rng.randint(2, 10)
            real = rng.random() < 0.3
            ser = [[num(), "0.0" if (real or i == 0) else num()] for i in range(k)]
            reqs.append({"start": "series", "signal": [], "series": ser, "count": 0, "samples": rng.choice([0, 2*k, 2*k-1, 4*k, 3*k+1, k, 2]),
                         "freq": freq, "real": real})
    check.judge("FourierTrace", execute(run_fourier, reqs), "random signals and series", workers=8)


# ----------------------------------------------------------------------------
# impedance matrix
# ----------------------------------------------------------------------------

def to_c(x):
    return complex(float(x[0]), float(x[1]))


BLANK = {"refused": False, "cur": [], "vol": [], "Z": [], "R": [], "L": [], "Q": [], "kR": [], "kL": [],
         "freq": "nan", "n_winding": 0, "kept": True, "err": ""}


def run_winding(req):
    import numpy as np
    from pypeec.utils import matrix

    np.seterr(all="ignore")
    obs = dict(BLANK)
    data = {"data_init": {}, "data_sweep": {
        "sim_%d" % (k+1): {"freq": float(x["freq"]), "source": {t: {"V": to_c(s["V"]), "I": to_c(s["I"])} for t, s in x["source"].items()}}
        for k, x in enumerate(req["sweeps"])
    }}
    sweep_list = ["sim_%d" % k for k in req["used"]]
    terminal_list = [dict(x) for x in req["terminals"]]
    stages = [[[w-1 for w in p] for p in s] for s in req["stages"]]
    args = (data, sweep_list, terminal_list, stages)
    ref = copy.deepcopy(args)
    try:
        terminal = matrix.get_extract(data, sweep_list, terminal_list)
        tmp = copy.deepcopy(terminal)
        expanded = matrix.get_symmetry(terminal, stages) if (stages or len(req["sweeps"]) % 2) else terminal
        obs["kept"] = same(terminal, tmp)
        tmp = copy.deepcopy(expanded)
        for (key, name) in [("cur", "I_mat"), ("vol", "V_mat")]:
            obs[key] = [[cplx(x) for x in col] for col in np.array(expanded[name]).T]
        out = matrix.get_matrix(expanded)
        obs["kept"] = obs["kept"] and same(expanded, tmp)
        obs["Z"] = [[cplx(x) for x in row] for row in np.array(out["Z_mat"])]
        for (key, name) in [("R", "R_mat"), ("L", "L_mat"), ("Q", "Q_mat"), ("kR", "k_R_mat"), ("kL", "k_L_mat")]:
            obs[key] = [[dec(x) for x in row] for row in np.array(out[name])]
        obs["freq"] = dec(out["freq"])
        obs["n_winding"] = int(out["n_winding"])
    except AssertionError:
        obs["refused"] = True
    except Exception as ex:  # noqa: BLE001
        obs["err"] = type(ex).__name__ + ": " + str(ex)[:80]
    obs["kept"] = obs["kept"] and same(args, ref)
    return {"req": req, "obs": obs}


def random_component(rng):
    """
    Random component: the matrix is invariant with respect to a group of permutations.
    """

    n = rng.randint(1, 4)
    cases = {1: [], 2: [[1, 0]], 3: [[1, 2, 0], [1, 0, 2], [0, 2, 1]], 4: [[1, 0, 3, 2], [2, 3, 0, 1], [1, 2, 3, 0], [1, 0, 2, 3]]}[n]
    gens = [rng.choice(cases)] if (cases and rng.random() < 0.6) else []
    if gens and rng.random() < 0.3:
        gens.append(rng.choice(cases))
    group = {tuple(range(n))}
    while True:
        new = {tuple(a[b[i]] for i in range(n)) for a in group for b in list(group) + [tuple(g) for g in gens]}
        if new <= group:
            break
        group |= new

    # symmetric matrix, averaged over the group
    base = [[complex(rng.randint(-3, 3), rng.randint(-3, 3)) for _ in range(n)] for _ in range(n)]
    mat = [[sum(base[p[i]][p[j]] + base[p[j]][p[i]] for p in group) for j in range(n)] for i in range(n)]
    top = max(abs(x) for row in mat for x in row) + 1
    mat = [[mat[i][j] + (complex(2*top, 3*top) if i == j else 0) for j in range(n)] for i in range(n)]

    freq = rng.choice(["1000.0", "50.0", "0.0", "1e6"])
    names = [("src_%d" % k, "sink_%d" % k) for k in range(n)]
    # scale of the currents and of the voltages
    amp = rng.choice([1, 1, 1, 1e-9, 1e-7, 1e6])
    sweeps = []
    n_sweep = rng.choice([1, 1, n, n, n+1]) if gens else rng.choice([n, n, n+1, n+2, max(1, n-1)])
    noise = 0.3 if rng.random() < 0.25 else 0.0
    mixed = n_sweep > 1 and rng.random() < 0.08
    # a frequency which is different, or nearly the same
    other = rng.choice(["123.0", repr(1.004*float(freq) + 1e-3)])
    for k in range(n_sweep):
        cur = [rng.choice([0, 0, 1, complex(rng.randint(-2, 2), rng.randint(-2, 2))]) for _ in range(n)]
        if rng.random() < 0.1 and sweeps:
            cur = [2*x for x in prev]  # noqa: F821
        prev = cur  # noqa: F841
        src = {}
        for w in range(n):
            v = sum(mat[w][j]*cur[j] for j in range(n)) + noise*complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
            off = complex(rng.randint(-4, 4), rng.randint(-4, 4)) if rng.random() < 0.5 else 0
            leak = complex(rng.randint(-4, 4), rng.randint(-4, 4))/4 if rng.random() < 0.3 else 0
            src[names[w][0]] = {"V": cplx(amp*(v+off)), "I": cplx(amp*(cur[w]+leak))}
            src[names[w][1]] = {"V": cplx(amp*off), "I": cplx(amp*(-cur[w]+leak))}
        sweeps.append({"freq": freq if not (mixed and k == n_sweep-1) else other, "source": src})
    used = list(range(1, n_sweep+1))
    rng.shuffle(used)
    stages = [[list(range(1, n+1)), [x+1 for x in g]] for g in gens]
    if gens and len(group) > 2 and rng.random() < 0.5:
        stages = [[[x+1 for x in g] for g in sorted(group)]]
    return {"terminals": [{"src": a, "sink": b} for a, b in names], "sweeps": sweeps, "used": used, "stages": stages,
            "extra": [], "z": [] if noise else [[cplx(x) for x in row] for row in mat], "rel": "1e-8"}


def run_device(item):
    """
    Device with two windings: the sweeps are computed by the real solver.
    """

    from pypeec import main
    import peec

    (n, bars, drive, freq, used, extra, stages, rel) = item
    src = {}
    for w in range(2):
        src["src_%d" % w] = {"domain_list": ["a%d" % w], "source_type": drive[w], "var_type": "lumped"}
        src["sink_%d" % w] = {"domain_list": ["b%d" % w], "source_type": "voltage", "var_type": "lumped"}
    val = {"current": lambda x: {"I_re": x.real, "I_im": x.imag, "Y_re": 0.0, "Y_im": 0.0},
           "voltage": lambda x: {"V_re": x.real, "V_im": x.imag, "Z_re": 1e-4, "Z_im": 0.0}}
    excite = [(1.0, 0.0), (0.0, 1.0), (1.0+1.0j, -2.0), (0.5j, 3.0)]
    sweep = {}
    for k, (x, y) in enumerate(excite):
        source_val = {}
        for (w, i) in [(0, x), (1, y)]:
            source_val["src_%d" % w] = val[drive[w]](complex(i))
            source_val["sink_%d" % w] = val["voltage"](0j)
        sweep["sim_%d" % (k+1)] = {"init": None, "param": {"freq": freq, "material_val": {"cu": {"rho_re": 1.7e-8, "rho_im": 0.0}}, "source_val": source_val}}
    voxel = main.run_mesher_data({
        "mesh_type": "voxel", "data_voxelize": {"param": {"n": n, "d": [1e-3, 1e-3, 1e-3], "c": [0.0, 0.0, 0.0]}, "domain_index": bars},
        "data_point": {"check_cloud": False, "full_cloud": False, "pts_cloud": []},
        "data_resampling": {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": False, "resolve_random": False, "conflict_rules": []},
        "data_integrity": {"domain_connected": {}, "domain_adjacent": {}},
    })
    problem = {"material_def": {"cu": {"domain_list": sorted(bars), "material_type": "electric", "orientation_type": "isotropic", "var_type": "lumped"}},
               "source_def": src, "sweep_solver": sweep}
    sol = main.run_solver_data(voxel, problem, peec.tolerance())
    sweeps = []
    for k in range(len(excite)):
        data = sol["data_sweep"]["sim_%d" % (k+1)]
        sweeps.append({"freq": dec(data["freq"]), "source": {t: {"V": cplx(data["source"][t]["V"]), "I": cplx(data["source"][t]["I"])} for t in src}})
    req = {"terminals": [{"src": "src_%d" % w, "sink": "sink_%d" % w} for w in range(2)], "sweeps": sweeps, "used": used,
           "stages": stages, "extra": extra, "z": [], "rel": rel}
    return run_winding(req)


def bars_of(n, paths):
    """
    Voxels of conductors along x (row y, layer z, first and last x).
    """

    out = {}
    for w, (y, z, x0, x1) in enumerate(paths):
        idx = [x + n[0]*(y + n[1]*z) for x in range(x0, x1+1)]
        out.update({"a%d" % w: idx[:1], "m%d" % w: idx[1:-1], "b%d" % w: idx[-1:]})
    return out


def run_matrices(check):
    res = check.model("WindingMC", "INIT MCInit\nNEXT MCNext\nINVARIANT WindInv\n", "small components, excitations and symmetries",
                      deadlock=True, workers=8, need=["Extract", "Expand", "Solve"], timeout=2000, env={"TIER": check.tier})
    fam = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    check.note("%d components" % len(fam))
    if check.quick and len(fam) > 500:
        fam = check.rng.sample(fam, 500)
    check.judge("WindingTrace", execute(run_winding, fam), "replay of the family", workers=8, timeout=2000)
    reqs = [random_component(check.rng) for _ in range(400 if check.quick else 5000)]
    check.judge("WindingTrace", execute(run_winding, reqs), "random components", workers=8, timeout=3000)

    items = []
    n = [6, 4, 1]
    for drive in itertools.product(["current", "voltage"], repeat=2):
        for freq in ([0.0, 1e4] if check.quick else [0.0, 1e3, 1e5, 1e7]):
            for paths in [[(0, 0, 0, 5), (2, 0, 0, 5)], [(0, 0, 0, 5), (3, 0, 1, 4)], [(0, 0, 0, 3), (2, 0, 2, 5)]]:
                items.append((n, bars_of(n, paths), drive, freq, [1, 2], [3, 4], [], "1e-6"))
                items.append((n, bars_of(n, paths), drive, freq, [1, 2, 3], [4], [], "1e-6"))
                if paths[0][2:] == paths[1][2:] and drive[0] == drive[1]:
                    items.append((n, bars_of(n, paths), drive, freq, [1], [2, 3, 4], [[[1, 2], [2, 1]]], "1e-6"))
    check.judge("WindingTrace", execute(run_device, items), "devices computed by the solver", workers=8, timeout=2000)


RUN = {"W05": run_matrices, "W06": run_indices, "W07": run_series}


def run(check):
    RUN[check.pid](check)
