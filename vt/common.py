"""Check context: evidence, violations, known findings, exit status."""

import errno
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")

warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")


def known_findings(prop):
    """Entries 'KNOWN property=<id> key=<key> :: text' of the committed file."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith(f"KNOWN property={prop} key="):
                k, _, text = line[len(f"KNOWN property={prop} key="):].partition(" :: ")
                res[k.strip()] = text.strip()
    return res


class Check:
    """One run of one property's check."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{self.seed}-{prop}")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"vt_{prop}_{os.getpid()}_")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.info = {}
        self.assumptions = []
        self.viol = {}
        self.known = known_findings(prop)
        self.known_hit = {}
        self.nviol = 0

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.tmp, name)

    def model(self, result, what):
        """Account for an exhaustive TLC run."""
        self.states += result.states
        self.transitions += result.generated
        self.info.setdefault("model_runs", []).append(
            dict(what=what, states=result.states, generated=result.generated,
                 depth=result.depth, **({"actions": result.coverage} if result.coverage else {})))
        dead = [k for k, v in result.coverage.items() if v == 0]
        if dead:
            self.info.setdefault("actions_never_taken", []).extend(f"{what}:{k}" for k in dead)

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def count(self, what, n=1):
        self.info[what] = self.info.get(what, 0) + n

    def violation(self, key, clause, **detail):
        """Record a violation; `key` identifies the failing input class for known findings."""
        for k in self.known:
            if key == k or (k.endswith("*") and key.startswith(k[:-1])):
                self.known_hit.setdefault(k, 0)
                self.known_hit[k] += 1
                return
        self.nviol += 1
        if len(self.viol) < 20 and (clause, key) not in self.viol:
            self.viol[(clause, key)] = detail

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        rdir = os.path.join(VERIF, "out", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + "-"):
                os.unlink(os.path.join(rdir, f))
        lines = []
        for i, ((clause, key), detail) in enumerate(self.viol.items()):
            p = os.path.join(rdir, f"{self.prop}-{i}.json")
            with open(p, "w") as f:
                json.dump(dict(property=self.prop, clause=clause, key=key, seed=self.seed,
                               tier=self.tier, detail=detail), f, indent=1, default=str)
            lines.append((p, clause, key, detail))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:6],
                   **self.info)
        if self.known_hit:
            cov["known_findings_seen"] = self.known_hit
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=self.nviol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, text in self.known.items():
            print(f"KNOWN-FINDING: property={self.prop} {text}"
                  + ("" if k in self.known_hit else " (not exercised in this run)"))
        for p, clause, key, detail in lines:
            print(f"VIOLATION property={self.prop} replay={p}")
            print(f"  clause={clause} key={key} {json.dumps(detail, default=str)[:600]}")
        print(f"{self.prop}: {'FAIL' if lines else 'ok'} states={self.states} "
              f"traces={self.traces} {time.time() - self.t0:.1f}s")
        sys.stdout.flush()
        return 1 if lines else 0


def fan(c, fn, total, chunks=8):
    """Run fn(check, n) in forked processes, n summing to `total`; concatenate the lists returned.

    Each chunk has its own generator, so results do not depend on the number of processes.
    The caller warms up compiled code first, children inherit it.
    """
    import multiprocessing as mp

    per = [total // chunks + (i < total % chunks) for i in range(chunks)]
    jobs = [(i, n) for i, n in enumerate(per) if n]
    ctx = mp.get_context("fork")
    base = (c.traces, c.nviol, dict(c.info))

    def child(i, n, conn):
        c.rng = random.Random(f"{c.seed}-{c.prop}-{fn.__name__}-{i}")
        c.tmp = tempfile.mkdtemp(prefix=f"{i}_", dir=c.tmp)
        c.traces, c.nviol, c.viol, c.samples, c.info = 0, 0, {}, [], {}
        err, res = None, []
        try:
            res = fn(c, n)
        except BaseException as e:
            bad = Blame()
            err = (blame(bad, e, traceback.format_exc()[-3000:]), bad.why, repr(e), traceback.format_exc()[-3000:])
        conn.send((res, c.traces, c.nviol, c.viol, c.samples, c.info, c.known_hit, err))
        conn.close()
        os._exit(0)

    sys.stdout.flush()
    procs = []
    for i, n in jobs:
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=child, args=(i, n, b))
        p.start()
        b.close()
        procs.append((p, a))
    out, error = [], None
    for p, a in procs:
        try:
            res, traces, nviol, viol, samples, info, hit, err = a.recv()
        except EOFError:
            p.join()
            # the process died: the code under test crashed the interpreter
            c.violation("crash", "no-crash", exit=p.exitcode)
            continue
        p.join()
        out += res
        c.traces += traces
        c.nviol += nviol
        for k, v in viol.items():
            if len(c.viol) < 20:
                c.viol.setdefault(k, v)
        for x in samples:
            c.sample(x)
        for k, v in info.items():
            if isinstance(v, (int, float)):
                c.info[k] = c.info.get(k, 0) + v
        for k, v in hit.items():
            c.known_hit[k] = c.known_hit.get(k, 0) + v
        if err and error is None:
            error = err
    if error:
        repo, why, what, tb = error
        if repo:
            c.violation("unexpected-exception", why, error=what, tb=tb)
        else:
            from vt import tlc
            raise tlc.ModelError(what + "\n" + tb)
    return out


class Blame:
    """Stands for a Check where only the clause is wanted."""

    why = ""

    def violation(self, key, clause, **detail):
        self.why = clause


def from_repo(exc):
    """Does the traceback of `exc` pass through the code under test?"""
    tb = exc.__traceback__
    while tb is not None:
        if "/swiftsimio/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def blame(c, exc, tb):
    """An exception ended the check: decide what it says.

    On the unchanged tree none occurs.  Failures of the tools themselves are no verdict; anything else means that
    the code under test raised, or returned something of which not even the form was right.
    """
    from vt import tlc
    if isinstance(exc, (tlc.TLCError, tlc.ModelError, MemoryError, KeyboardInterrupt)):
        return False
    if isinstance(exc, OSError) and exc.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
        return False
    c.violation("unexpected-exception", "no-unexpected-exception" if from_repo(exc) else "results-have-the-documented-form",
                error=repr(exc), tb=tb)
    return True


def main(prop, body):
    """Run `body` in a process of its own; a crash or a hang of the code under test is a violation too."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 2
        try:
            os.setpgid(0, 0)
            code = attempt(prop, body)
            sys.stdout.flush()
        finally:
            os._exit(code)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass

    def stop(*_):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass

    signal.signal(signal.SIGTERM, lambda *_: (stop(), os._exit(2)))
    signal.signal(signal.SIGINT, lambda *_: (stop(), os._exit(2)))
    limit = float(os.environ.get("VT_LIMIT") or (780 if os.environ.get("VERIF_TIER", "quick") == "quick" else 10**7))
    end, hung, status = time.time() + limit, False, None
    while status is None:
        done, st = os.waitpid(pid, os.WNOHANG)
        if done:
            status = st
        elif time.time() > end and not hung:
            hung = True
            stop()
        else:
            time.sleep(0.05)
    if os.WIFEXITED(status) and not hung:
        return os.WEXITSTATUS(status)
    stop()
    c = Check(prop)
    shutil.rmtree(c.tmp, ignore_errors=True)
    for d in os.listdir(tempfile.gettempdir()):
        if d.startswith(f"vt_{prop}_{pid}_"):
            shutil.rmtree(os.path.join(tempfile.gettempdir(), d), ignore_errors=True)
    if hung:
        c.violation("hang", "comes-to-an-end", seconds=limit)
    else:
        c.violation("crash", "no-crash", signal=os.WTERMSIG(status))
    return c.finish()


def attempt(prop, body):
    """Run `body(check)` with total verdicts."""
    c = Check(prop)
    try:
        import swiftsimio

        assert os.path.realpath(swiftsimio.__file__).startswith(os.path.realpath(REPO) + "/"), \
            swiftsimio.__file__
    except Exception as e:  # the package cannot even be imported
        c.violation("import", "package-imports", error=repr(e), tb=traceback.format_exc()[-1500:])
        return c.finish()
    try:
        body(c)
    except (Exception, SystemExit) as e:
        if not blame(c, e, traceback.format_exc()[-3000:]) and not c.viol:
            traceback.print_exc()
            shutil.rmtree(c.tmp, ignore_errors=True)
            return 2
    return c.finish()
