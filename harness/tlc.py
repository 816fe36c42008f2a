"""
Interface to TLC: run a module of /verif/spec with a configuration in a scratch directory.
"""

import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = [
    "/opt/veriftools/tla/tla2tools.jar",
    "/opt/veriftools/tla/CommunityModules-deps.jar",
]


class TlcError(Exception):
    """
    TLC could not evaluate the specification (a defect of the machinery, not a verdict).
    """


class Scratch:
    """
    Scratch directory with a copy of the specification and the compiled Java operators.
    """

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="pypeec_verif_")
        self.cls = os.path.join(self.path, "cls")
        self.spec = os.path.join(self.path, "spec")
        os.mkdir(self.cls)
        os.mkdir(self.spec)
        for name in os.listdir(SPEC):
            if name.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, name), self.spec)
        src = os.path.join(SPEC, "java", "tlc2", "overrides", "DecOps.java")
        subprocess.run(["javac", "-cp", JARS[0], "-d", self.cls, src], check=True, capture_output=True)

    def file(self, name):
        return os.path.join(self.path, name)

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def run(scratch, module, cfg, env=None, workers=4, timeout=800, heap="3g", args=(), deadlock=False, coverage=False):
    """
    Run TLC on a module. Return a dict with the counts, the printed lines, and the violation (if any).
    """

    tag = "%s_%d" % (module, int(time.time() * 1e6))
    cfg_name = tag + ".cfg"
    with open(os.path.join(scratch.spec, cfg_name), "w") as fid:
        fid.write(cfg)

    cmd = [
        "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
        "-cp", ":".join([scratch.cls] + JARS),
        "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.DecOps",
        "tlc2.TLC", "-workers", str(workers), "-config", cfg_name,
        "-metadir", os.path.join(scratch.path, "meta_" + tag), "-noGenerateSpecTE",
    ]
    if not deadlock:
        cmd.append("-deadlock")
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(args)
    cmd.append(module + ".tla")

    full_env = dict(os.environ)
    full_env.update(env or {})
    out_name = os.path.join(scratch.path, "out_" + tag)
    tic = time.time()
    with open(out_name, "w") as fid:
        proc = subprocess.Popen(cmd, cwd=scratch.spec, env=full_env, stdout=fid, stderr=subprocess.STDOUT)
        try:
            code = proc.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
            raise TlcError("TLC timeout: %s" % module)
    wall = time.time() - tic

    with open(out_name) as fid:
        text = fid.read()
    shutil.rmtree(os.path.join(scratch.path, "meta_" + tag), ignore_errors=True)

    res = {"module": module, "code": code, "wall": wall, "text": text, "states": 0, "distinct": 0, "depth": 0}
    for match in re.finditer(r"^(\d+) states generated, (\d+) distinct states found", text, re.M):
        res["states"] = int(match.group(1))
        res["distinct"] = int(match.group(2))
    match = re.search(r"depth of the complete state graph search is (\d+)", text)
    if match:
        res["depth"] = int(match.group(1))

    # strings printed by the specification
    res["printed"] = []
    for line in text.splitlines():
        if line.startswith('"') and line.endswith('"'):
            res["printed"].append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))

    # coverage of the actions
    res["actions"] = {}
    for match in re.finditer(r"^<(\w+) line .*>: (\d+):(\d+)", text, re.M):
        (name, new, tot) = match.groups()
        old = res["actions"].get(name, (0, 0))
        res["actions"][name] = (max(old[0], int(new)), max(old[1], int(tot)))

    # verdict
    match = re.search(r"Error: (Invariant \S+ is violated|Action property \S+ is violated|Temporal properties were violated|Deadlock reached|.*POSTCONDITION.*|.*[Pp]ostcondition.*)", text)
    res["violated"] = match.group(1) if match else None
    ok = "Model checking completed. No error has been found." in text
    sim = "-simulate" in args
    if sim and code == 0:
        ok = True
    res["ok"] = ok and (res["violated"] is None)
    if not res["ok"] and res["violated"] is None:
        tail = "\n".join(x for x in text.splitlines() if not x.startswith('"'))[-3000:]
        raise TlcError("TLC failed on %s (code %d):\n%s" % (module, code, tail))

    return res
