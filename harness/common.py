"""
Common parts of the checks: execution of the implementation, judgement by TLC, evidence and verdict.
"""

import concurrent.futures
import faulthandler
import io
import json
import math
import multiprocessing
import os
import random
import sys
import time
import traceback

import tlc

VERIF = tlc.VERIF
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.json")

# number of processes for the execution of the implementation
N_PROC = max(1, min(8, os.cpu_count() or 1))


# ----------------------------------------------------------------------------
# values
# ----------------------------------------------------------------------------

def dec(val):
    """
    Exact-enough decimal string of a real number ("nan" if it is not a finite number).
    """

    try:
        val = float(val)
    except (TypeError, ValueError):
        return "nan"
    if not math.isfinite(val):
        return "nan"
    return repr(val)


def cplx(val):
    """
    Pair of decimals for a complex number.
    """

    val = complex(val)
    return [dec(val.real), dec(val.imag)]


def clean(obj):
    """
    JSON-compatible copy of recorded data (numpy scalars and arrays are converted).
    """

    import numpy as np

    if isinstance(obj, dict):
        return {str(k): clean(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [clean(v) for v in obj]
    if isinstance(obj, np.ndarray):
        return clean(obj.tolist())
    if isinstance(obj, np.generic):
        return clean(obj.item())
    return obj


# ----------------------------------------------------------------------------
# execution of the implementation
# ----------------------------------------------------------------------------

def quiet():
    """
    Discard the log of the implementation in the current process.
    """

    import logging
    logging.disable(logging.CRITICAL)
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    os.dup2(fd, 1)
    os.close(fd)


def _child_init():
    quiet()


def _child_run(arg):
    (fct, item) = arg
    try:
        return fct(item)
    except Exception as ex:  # noqa: BLE001
        return {"harness_error": "".join(traceback.format_exception(ex))[-2000:]}


def execute(fct, items, n_proc=N_PROC, timeout=600, chunk=None):
    """
    Run a function on items in forked processes (log discarded), return the results in order.
    """

    if not items:
        return []
    if chunk is None:
        chunk = max(1, min(64, len(items) // (4 * n_proc) or 1))
    ctx = multiprocessing.get_context("fork")
    with concurrent.futures.ProcessPoolExecutor(n_proc, mp_context=ctx, initializer=_child_init) as pool:
        out = list(pool.map(_child_run, [(fct, x) for x in items], chunksize=chunk, timeout=timeout))
    for res in out:
        if isinstance(res, dict) and "harness_error" in res:
            raise RuntimeError(res["harness_error"])
    return out


# ----------------------------------------------------------------------------
# judgement
# ----------------------------------------------------------------------------

class Check:
    """
    Collect what was explored and decide the verdict of a property.
    """

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.tic = time.time()
        self.scratch = tlc.Scratch()
        self.models = []
        self.batches = []
        self.samples = []
        self.violations = []
        self.other = {}
        self.notes = []
        self.n_records = 0
        self.n_states = 0
        self.n_trans = 0
        self.level = "model_checking"

    # --- specification

    def model(self, module, cfg, what, env=None, need=(), **kwargs):
        """
        Model-check the specification itself. A violation there is a defect of the machinery.
        """

        coverage = bool(need) and not self.quick
        res = tlc.run(self.scratch, module, cfg, env=env, coverage=coverage, **kwargs)
        if not res["ok"]:
            raise tlc.TlcError("specification %s: %s\n%s" % (module, res["violated"], res["text"][-3000:]))
        if coverage:
            for name in need:
                if res["actions"].get(name, (0, 0))[1] == 0:
                    raise tlc.TlcError("specification %s: action %s never taken" % (module, name))
        self.models.append({
            "module": module, "what": what, "states": res["states"], "distinct": res["distinct"],
            "depth": res["depth"], "wall_s": round(res["wall"], 1),
            "actions": {k: v[1] for k, v in res["actions"].items()},
        })
        self.n_states += res["distinct"]
        self.n_trans += res["states"]
        return res

    # --- conformance

    def judge(self, module, records, what, own=None, cfg="INIT Init\nNEXT Next\n", env=None, key=None, **kwargs):
        """
        Let TLC judge recorded observations: one verdict per record, with the failing clauses.
        The clauses which are not owned by the property are reported as information only.
        """

        if not records:
            return []
        name = self.scratch.file("trace_%d.ndjson" % len(self.batches))
        with open(name, "w") as fid:
            for rec in records:
                fid.write(json.dumps(clean(rec)) + "\n")
        full_env = {"TRACE": name}
        full_env.update(env or {})
        res = tlc.run(self.scratch, module, cfg, env=full_env, **kwargs)
        if not res["ok"]:
            raise tlc.TlcError("trace specification %s: %s\n%s" % (module, res["violated"], res["text"][-3000:]))
        verdicts = {}
        for line in res["printed"]:
            if line.startswith("VERDICT "):
                data = json.loads(line[8:])
                verdicts[data["id"]] = data
        if sorted(verdicts) != list(range(1, len(records) + 1)):
            missing = [k for k in range(1, len(records) + 1) if k not in verdicts]
            raise tlc.TlcError("trace specification %s: no verdict for %s" % (module, missing[:10]))
        ends = {}
        for k, rec in enumerate(records):
            data = verdicts[k + 1]
            end = data.get("end", "") + ((" " + data["why"]) if data.get("why") else "")
            ends[end] = ends.get(end, 0) + 1
            for clause in data["bad"]:
                if own is None or any(clause.startswith(x) for x in own):
                    self.violate(clause, rec, key=key(rec, clause) if key else None)
                else:
                    self.other[clause] = self.other.get(clause, 0) + 1
        self.batches.append({
            "module": module, "what": what, "records": len(records), "states": res["distinct"],
            "wall_s": round(res["wall"], 1), "outcomes": ends,
        })
        self.n_records += len(records)
        self.n_states += res["distinct"]
        self.n_trans += res["states"]
        if len(self.samples) < 4:
            self.samples.append({"batch": what, "record": clean(records[len(records) // 2])})
        return [verdicts[k + 1] for k in range(len(records))]

    def violate(self, clause, record, key=None):
        """
        Add a violation of the property.
        """

        self.violations.append({"clause": clause, "record": record, "key": key or clause})

    def note(self, text):
        self.notes.append(text)

    # --- end

    def finish(self):
        """
        Write the evidence, print the verdict, and return the exit code.
        """

        findings = {}
        if os.path.exists(FINDINGS):
            with open(FINDINGS) as fid:
                for item in json.load(fid)["findings"]:
                    if item["property"] == self.pid:
                        findings[item["key"]] = item["what"]

        known = {}
        new = []
        for item in self.violations:
            if item["key"] in findings:
                known[item["key"]] = known.get(item["key"], 0) + 1
            else:
                new.append(item)

        for key in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, findings[key]))

        seen = {}
        for item in new:
            seen.setdefault(item["clause"], []).append(item)
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        replay = []
        for k, (clause, items) in enumerate(sorted(seen.items())):
            path = os.path.join(EVIDENCE, "replay", "%s_%d.json" % (self.pid, k))
            with open(path, "w") as fid:
                json.dump({"property": self.pid, "clause": clause, "count": len(items),
                           "record": clean(items[0]["record"])}, fid, indent=1, default=str)
            replay.append(path)
            print("violated clause: %s (%d records)" % (clause, len(items)))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))

        samples = []
        for item in self.samples:
            text = json.dumps(item, default=str)
            samples.append(item if len(text) < 6000 else {"batch": item["batch"], "record": text[:2000] + "..."})

        evidence = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "wall_s": round(time.time() - self.tic, 2),
            "coverage": {
                "states": self.n_states,
                "transitions": self.n_trans,
                "traces_validated_against_impl": self.n_records,
                "samples": samples,
                "models": self.models,
                "batches": self.batches,
                "clauses_of_other_properties": self.other,
                "known_findings": known,
                "violations": {k: len(v) for k, v in seen.items()},
                "notes": self.notes,
            },
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, "%s.json" % self.pid), "w") as fid:
            json.dump(evidence, fid, indent=1, default=str)
        print("%s: %d records judged, %d states, %d new violations, %.1f s" % (
            self.pid, self.n_records, self.n_states, len(new), time.time() - self.tic))
        self.scratch.close()
        return 1 if new else 0
