"""Run TLC: exhaustive checks, behaviour generation, trace validation."""

import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """The model checker itself failed (machinery failure, not a verdict)."""


class ModelError(RuntimeError):
    """A specification does not do what it has to (machinery failure, not a verdict)."""


class Result:
    """What one TLC run reported."""

    def __init__(self):
        self.states = 0  # distinct
        self.generated = 0
        self.depth = 0
        self.records = []  # payloads printed by the spec
        self.coverage = {}
        self.violated = None
        self.out = ""


def cfg_text(constants=None, spec=None, init=None, next=None, invariants=(), properties=(),
             constraints=(), action_constraints=(), postcondition=None, deadlock=False,
             view=None, symmetry=None):
    t = []
    if spec:
        t.append(f"SPECIFICATION {spec}")
    if init:
        t.append(f"INIT {init}")
    if next:
        t.append(f"NEXT {next}")
    for k, v in (constants or {}).items():
        t.append(f"CONSTANT {k} = {tla(v)}")
    for i in invariants:
        t.append(f"INVARIANT {i}")
    for i in properties:
        t.append(f"PROPERTY {i}")
    for i in constraints:
        t.append(f"CONSTRAINT {i}")
    for i in action_constraints:
        t.append(f"ACTION_CONSTRAINT {i}")
    if postcondition:
        t.append(f"POSTCONDITION {postcondition}")
    if view:
        t.append(f"VIEW {view}")
    t.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    return "\n".join(t) + "\n"


def tla(v):
    """A Python value as TLA+ constant text."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("@") is False and v[:1] in '{<[' else '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    raise TypeError(v)


def run(module, cfg, *, env=None, workers=4, timeout=600, coverage=False, simulate=None,
        depth=None, seed=None, mem="3g", allow_violation=False, dfs=False):
    """Run TLC on spec/<module>.tla with the configuration text `cfg`."""
    work = tempfile.mkdtemp(prefix="vt_tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
        with open(os.path.join(work, "M.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m",
               f"-Djava.io.tmpdir={work}", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(work, "st"), "-config", "M.cfg"]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
            if seed is not None:
                cmd += ["-seed", str(seed)]
        cmd += [f"{module}.tla"]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
        r = Result()
        r.out = p.stdout
        for line in p.stdout.splitlines():
            if line.startswith('"VT '):
                r.records.append(json.loads(json.loads(line)[3:]))
            m = re.match(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", line)
            if m:
                r.generated = int(m.group(1).replace(",", ""))
                r.states = int(m.group(2).replace(",", ""))
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                r.depth = int(m.group(1))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                r.generated = int(m.group(1))
            m = re.match(r"<(\w+) line (\d+).* of module (\w+)>: (\d+):(\d+)", line)
            if m:
                k = m.group(1)
                r.coverage[k] = r.coverage.get(k, 0) + int(m.group(5))
            m = re.match(r"Error: (Invariant|Action property|Temporal properties|Property) ?(\S*)", line)
            if m and r.violated is None:
                r.violated = m.group(2) or m.group(1)
            if line.startswith("Error: POSTCONDITION") or "PostCondition" in line:
                r.violated = r.violated or "POSTCONDITION"
        if p.returncode != 0 and not (allow_violation and r.violated):
            i = p.stdout.find("rror")
            raise TLCError(f"TLC failed on {module} (exit {p.returncode}):\n"
                           + p.stdout[max(0, i - 200):][:4000])
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)
