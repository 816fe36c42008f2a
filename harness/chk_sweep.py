"""
Scheduling of the sweeps (S02): specification Sweep.tla, trace specification SweepTrace.tla.

 - the dependency graphs enumerated by TLC (SweepMC.tla, with failing sweeps) and larger random ones are handed to the
   scheduler of the implementation (serial and parallel), the recorded events have to be a behaviour of the specification
 - problems with these dependencies are solved with the public entry point (in several declaration orders, serial and
   parallel), and compared with the sweeps solved on their own
"""

import copy
import json
import os
import time

import peec
from common import cplx, dec, execute

CFG = "SPECIFICATION MCSpec\nINVARIANT Inv\nPROPERTY Progress\n"
SYMBOL = "sweep_joblib.get_run_sweep"


def available():
    import inspect
    try:
        from pypeec.lib_solver import sweep_joblib
        names = list(inspect.signature(sweep_joblib.get_run_sweep).parameters)
    except Exception:  # noqa: BLE001
        return False
    return names == ["parallel_sweep", "sweep_solver", "fct_compute"]


# ----------------------------------------------------------------------------
# scheduler
# ----------------------------------------------------------------------------

def make_compute(name, fails, delay):
    """
    Computation of a sweep which records its start and its end (atomic writes to a common file).
    """

    def log(kind, tag, param, guess):
        line = json.dumps({"kind": kind, "tag": tag, "param": param, "guess": guess})
        fid = os.open(name, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fid, (line + "\n").encode())
        os.close(fid)

    def compute(tag, param, guess):
        par = param["mark"]
        log("start", tag, par, "" if guess is None else str(guess.get("of", "?")))
        if delay:
            # some sweeps are slower: the order of the ends differs from the order of the starts
            time.sleep(delay*(1 + 3*(sum(tag.encode()) % 3 == 0)))
        if tag in fails:
            log("fail", tag, par, "")
            raise RuntimeError("injected failure")
        log("end", tag, par, "")
        return {"of": tag}, {"of": tag}

    return compute


def end_workers(jobs):
    """
    End the workers of the parallel runs (their idle timeout would delay the end of the process).
    """

    if jobs:
        from joblib.externals.loky import get_reusable_executor
        get_reusable_executor().shutdown(wait=True, kill_workers=True)


def run_events(item):
    """
    Run the scheduler.
    """

    import tempfile
    from pypeec.lib_solver import sweep_joblib

    req = item["req"]
    (fd, name) = tempfile.mkstemp(dir=item["dir"])
    os.close(fd)
    sweeps = {x["tag"]: {"init": x["init"] or None, "param": {"mark": x["tag"]}} for x in req["sweeps"]}
    obs = {"ok": True, "err": "", "names": [], "values": [], "events": []}
    try:
        out = sweep_joblib.get_run_sweep(
            {"n_jobs": item["jobs"], "n_threads": None}, sweeps, make_compute(name, list(req["fails"]), item["delay"]))
        obs["names"] = list(out)
        obs["values"] = [out[t]["of"] for t in out]
    except Exception as ex:  # noqa: BLE001
        obs["ok"] = False
        obs["err"] = type(ex).__name__ + ": " + str(ex)[:100]
    if item["jobs"] and not obs["ok"] and req["fails"]:
        # the other workers may still be running
        time.sleep(0.3)
    end_workers(item["jobs"])
    with open(name) as fid:
        obs["events"] = [json.loads(x) for x in fid]
    os.remove(name)
    if item["jobs"] and not obs["ok"]:
        # what was started together with the failing sweep is not ordered with respect to the failure
        kinds = [e["kind"] for e in obs["events"]]
        if "fail" in kinds:
            obs["events"] = obs["events"][:kinds.index("fail")+1]
    return {"kind": "events", "req": req, "obs": obs, "jobs": item["jobs"]}


# ----------------------------------------------------------------------------
# problems
# ----------------------------------------------------------------------------

def brief(data, tag):
    """
    Results of a sweep.
    """

    out = data["data_sweep"][tag]
    power = [out["integral"][k] for k in ["S_total", "P_total"]]
    power += [out["source"][t]["S"] for t in sorted(out["source"])]
    curr = [out["source"][t]["I"] for t in sorted(out["source"])]
    pot = [out["source"][t]["V"] for t in sorted(out["source"])] + list(out["var"]["V_c"]["var"])
    return {"tag": tag, "freq": dec(out["freq"]), "converged": bool(out["has_converged"]),
            "init": cplx(out["conv"]["power_init"]), "final": cplx(out["conv"]["power_final"]),
            "power": [cplx(x) for x in power], "curr": [cplx(x) for x in curr], "pot": [cplx(x) for x in pot]}


def conductance(params):
    """
    Order of magnitude of the conductance of a voxel (which of the computed currents are rounding errors).
    """

    rho = []

    def leaf(val):
        for v in val:
            leaf(v) if isinstance(v, list) else rho.append(abs(float(v)))

    for one in params:
        for m in one["mats"]:
            leaf([v for k, v in m["val"].items() if k.startswith("rho")])
    return max(float(x) for x in one["d"])/min([r for r in rho if r > 0] or [1.0])


def solve(voxel, base, sweeps, params, jobs):
    from pypeec import main

    problem = {**peec.get_def(base), "sweep_solver": {x["tag"]: {"init": x["init"] or None, "param": params[x["tag"]]} for x in sweeps}}
    opt = peec.tolerance(parallel_sweep={"n_jobs": jobs, "n_threads": None})
    try:
        data = main.run_solver_data(voxel, problem, opt)
    except Exception as ex:  # noqa: BLE001
        return {"ok": False, "err": type(ex).__name__ + ": " + str(ex)[:100], "sweeps": [], "jobs": jobs}
    return {"ok": True, "err": "", "sweeps": [brief(data, t) for t in data["data_sweep"]], "jobs": jobs}


def run_problem(item):
    """
    Solve a problem with sweeps in several ways.
    """

    (base, req) = (item["base"], item["req"])
    voxel = peec.get_voxel(base)
    params = {x["tag"]: peec.get_param(item["params"][x["tag"]]) for x in req["sweeps"]}
    alone = []
    for x in req["sweeps"]:
        res = solve(voxel, base, [{"tag": x["tag"], "init": ""}], params, 0)
        if not res["ok"]:
            raise RuntimeError("a sweep cannot be solved on its own: %s" % res["err"])
        alone.append(res["sweeps"][0])
    ways = []
    for (order, jobs) in item["ways"]:
        ways.append(solve(voxel, base, [req["sweeps"][k] for k in order], params, jobs))
        end_workers(jobs)
    return {"kind": "run", "req": req, "tol": "1e-6", "cond": dec(conductance(item["params"].values())), "alone": alone,
            "problem": base, "obs": {"ways": ways, "events": []}}


def rand_graph(rng, count, good=True):
    """
    Random dependencies.
    """

    tags = ["t%d" % k for k in range(count)]
    if rng.random() < 0.4:
        tags = rng.sample(["a", "A", "a ", "a_b", "b_a", "1", "10", "01", "x.y", "None", "init", "-", "aB", "t1"] + ["a%d" % k for k in range(count)], count)
    shape = rng.random()
    deep = shape < 0.3
    wide = shape > 0.75
    sweeps = []
    for k in range(count):
        if k == 0 or rng.random() < 0.15:
            init = ""
        elif wide:
            # many sweeps with the same initial guess
            init = sweeps[1]["init"] if k > 1 and rng.random() < 0.9 else rng.choice(["", tags[0]])
        else:
            init = tags[k-1] if deep else tags[rng.randrange(k)]
        sweeps.append({"tag": tags[k], "init": init})
    if not good:
        sweeps[rng.randrange(count)]["init"] = rng.choice(tags + ["unknown"])
    rng.shuffle(sweeps)
    return {"sweeps": sweeps, "fails": []}


def rand_problem(rng, req, jobs):
    """
    Problem with sweeps of the given dependencies: each sweep has its own excitation and material.
    """

    while True:
        base = peec.random_problem(rng, size=[rng.randint(1, 3), rng.randint(1, 2), 2], n_pts=0, magnetic=rng.random() < 0.3)
        if all(x["var"] == "lumped" or any(base["dom"][t] for t in x["domains"]) for x in base["mats"]):
            break
    params = {}
    freqs = rng.choice([["0.0"], ["1000.0", "50.0", "1e5"], ["0.0", "1000.0"]])
    for x in req["sweeps"]:
        one = copy.deepcopy(base)
        one["freq"] = rng.choice(freqs)

        def scale(val, fact):
            return [scale(v, fact) for v in val] if isinstance(val, list) else repr(float(val)*fact)

        for s in one["srcs"]:
            fact = rng.choice([1, -1])*rng.uniform(0.2, 5)
            s["val"] = {k: (scale(v, fact) if k[0] in "IV" else v) for k, v in s["val"].items()}
        for m in one["mats"]:
            fact = rng.uniform(0.5, 2)
            m["val"] = {k: (scale(v, fact) if k.startswith("rho") else v) for k, v in m["val"].items()}
        params[x["tag"]] = one
    order = list(range(len(req["sweeps"])))
    ways = [(list(order), 0)]
    rng.shuffle(order)
    ways.append((list(order), 0))
    if jobs:
        rng.shuffle(order)
        ways.append((list(order), jobs))
    return {"base": base, "req": req, "params": params, "ways": ways}


def run(check):
    rng = check.rng
    res = check.model("SweepMC", CFG, "all the dependencies between the sweeps", env={"TIER": check.tier},
                      deadlock=True, workers=8, need=["Emit", "Check1", "Start1", "Finish1", "Fail1"])
    graphs = [json.loads(x[4:]) for x in sorted({x for x in res["printed"] if x.startswith("REQ ")})]
    check.note("%d dependency graphs" % len(graphs))

    if available():
        pick = graphs if not check.quick or len(graphs) < 2500 else rng.sample(graphs, 2500)
        pick = pick if len(pick) < 6000 else rng.sample(pick, 6000)
        items = [{"req": g, "jobs": 0, "delay": 0, "dir": check.scratch.path} for g in pick]
        for count in (12, 30, 300, 1200):
            for _ in range(2 if check.quick else 10):
                items.append({"req": rand_graph(rng, count), "jobs": 0, "delay": 0, "dir": check.scratch.path})
        small = [x for x in items if len(x["req"]["sweeps"]) < 20]
        large = [x for x in items if len(x["req"]["sweeps"]) >= 20]
        check.judge("SweepTrace", execute(run_events, small), "schedules (serial)", workers=8, timeout=2000)
        check.judge("SweepTrace", [order(x) for x in execute(run_events, large)], "schedules with many sweeps", workers=8, timeout=2000)
        # parallel
        good = [g for g in graphs if len(g["sweeps"]) >= 3]
        items = [{"req": rng.choice(good) if rng.random() < 0.3 else rand_graph(rng, rng.randint(3, 9)), "jobs": rng.choice([2, 3]),
                  "delay": 0.02, "dir": check.scratch.path} for _ in range(40 if check.quick else 400)]
        records = execute(run_events, items, n_proc=3)
        check.judge("SweepTrace", records, "schedules (parallel)", workers=8, timeout=2000)
    else:
        check.note("the interface of %s has changed: only the public entry point is used" % SYMBOL)

    items = [rand_problem(rng, rand_graph(rng, rng.randint(2, 5), good=rng.random() < 0.85), 0) for _ in range(140 if check.quick else 900)]
    check.judge("SweepTrace", execute(run_problem, items), "problems (serial)", workers=8, timeout=2000)
    items = [rand_problem(rng, rand_graph(rng, rng.randint(2, 6), good=True), 2) for _ in range(16 if check.quick else 80)]
    check.judge("SweepTrace", execute(run_problem, items, n_proc=3), "problems (parallel)", workers=8, timeout=2000)


def order(rec):
    """
    Schedule with many sweeps: positions of the start and of the end of the computation of each sweep.
    """

    pos = {x["tag"]: {"starts": [], "ends": [], "guess": [], "param": []} for x in rec["req"]["sweeps"]}
    for (k, e) in enumerate(rec["obs"]["events"]):
        one = pos.setdefault(e["tag"], {"starts": [], "ends": [], "guess": [], "param": []})
        if e["kind"] == "start":
            one["starts"].append(k + 1)
            one["guess"].append(e["guess"])
            one["param"].append(e["param"])
        else:
            one["ends"].append(k + 1)
    return {"kind": "order", "req": rec["req"], "jobs": rec["jobs"],
            "obs": {"ok": rec["obs"]["ok"], "err": rec["obs"]["err"], "events": [], "pos": pos,
                    "values": dict(zip(rec["obs"]["names"], rec["obs"]["values"]))}}
