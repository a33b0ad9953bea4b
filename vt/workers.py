"""Run part of a check in processes of their own, each with its own environment."""
import json
import os
import random
import subprocess
import sys
import tempfile

from vt import common, tlc


class Ctx:
    """What a worker needs of a Check."""

    def __init__(self, spec):
        self.tmp, self.thorough, self.args = spec["tmp"], spec["thorough"], spec["args"]
        self.rng = random.Random(spec["seed"])
        self.info = {}

    def path(self, name):
        return os.path.join(self.tmp, name)

    def n(self, q, t):
        return t if self.thorough else q

    def count(self, what, n=1):
        self.info[what] = self.info.get(what, 0) + n


def spawn(c, module, fn, jobs, timeout=None):
    """jobs: list of (environment, args); module.fn(ctx) gives a list of events.  Returns all events."""
    timeout = timeout or (650 if not c.thorough else 7200)
    procs = []
    for i, (env, args) in enumerate(jobs):
        tmp = tempfile.mkdtemp(prefix=f"w{i}_", dir=c.tmp)
        spec = dict(tmp=tmp, thorough=c.thorough, args=args, seed=f"{c.seed}-{c.prop}-{fn}-{i}", module=module, fn=fn)
        with open(os.path.join(tmp, "spec.json"), "w") as f:
            json.dump(spec, f)
        e = dict(os.environ, NUMBA_CACHE_DIR=tmp, **env)
        err = open(os.path.join(tmp, "err"), "w")
        procs.append((tmp, env, subprocess.Popen([sys.executable, "-W", "ignore", "-m", "vt.workers", tmp], env=e, stdout=err,
                                                 stderr=err, cwd=common.VERIF)))
    out = []
    for tmp, env, p in procs:
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            c.violation("hang", "comes-to-an-end", env=env, seconds=timeout)
            continue
        res = os.path.join(tmp, "out.json")
        if p.returncode < 0:
            c.violation("crash", "no-crash", exit=p.returncode, env=env)
            continue
        if not os.path.exists(res):
            raise tlc.ModelError(f"worker {env} exit {p.returncode}: " + open(os.path.join(tmp, "err")).read()[-3000:])
        r = json.load(open(res))
        if r["error"]:
            if r["repo"]:
                c.violation("unexpected-exception", r["why"], error=r["error"], tb=r["tb"])
            else:
                raise tlc.ModelError(r["error"] + r["tb"])
        for k, v in r["info"].items():
            c.info[k] = c.info.get(k, 0) + v
        out += r["events"]
    return out


def main(tmp):
    import importlib
    import traceback

    spec = json.load(open(os.path.join(tmp, "spec.json")))
    ctx = Ctx(spec)
    r = dict(events=[], error="", tb="", repo=False)
    try:
        r["events"] = getattr(importlib.import_module(spec["module"]), spec["fn"])(ctx)
    except Exception as e:
        bad = common.Blame()
        r.update(error=repr(e), tb=traceback.format_exc()[-3000:], repo=common.blame(bad, e, ""))
        r["why"] = bad.why
    r["info"] = ctx.info
    with open(os.path.join(tmp, "out.part"), "w") as f:
        json.dump(r, f)
    os.rename(os.path.join(tmp, "out.part"), os.path.join(tmp, "out.json"))


if __name__ == "__main__":
    main(sys.argv[1])
