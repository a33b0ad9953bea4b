"""C05: the algebra of scale-factor dependences (Factor.tla, FactorTrace.tla)."""
import copy
import math
import pickle
import sys
from fractions import Fraction

import numpy as np

from vt import common, tlc
from vt.checks.R02 import validate

SCALES = {1: 1.0, 2: 0.5, 3: 0.25, 4: 0.3, 5: 2.0}
ALIENS = [2, 0.5, 0, "a", None, [1], np.float64(3)]


def see(f):
    """What can be read from a dependence."""
    from swiftsimio.objects import a
    o = dict(known=f.expr is not None, e=0, s=0, f=0, hasf=False, z=False)
    if o["known"]:
        v = f.expr.subs(a, 0.5) if hasattr(f.expr, "subs") else f.expr
        o["e"] = exponent(float(v), 0.5)
    if f.scale_factor is not None:
        near = [k for k, v in SCALES.items() if abs(float(f.scale_factor) - v) < 1e-6]
        o["s"] = near[0] if near else 9
    r, w = f.redshift, f.a_factor
    o["z"] = (r is None) if o["s"] == 0 else (r is not None and abs(float(r) - (1 / SCALES.get(o["s"], 1e9) - 1)) < 1e-5)
    if w is not None:
        o["hasf"] = True
        if o["s"] == 1:
            o["f"] = 0 if abs(w - 1) < 1e-9 else 10**6
        elif o["s"] in SCALES:
            o["f"] = exponent(float(w), SCALES[o["s"]])
    return o


def exponent(v, base):
    """log v to the base, in 48ths; something absurd if it is none."""
    if not (v > 0 and math.isfinite(v)):
        return 10**6
    e = math.log(v) / math.log(base) * 48
    return int(round(e)) if abs(e - round(e)) < 1e-3 else 10**6


def number(rng, e):
    """An exponent in 48ths, written in one of the ways it can be."""
    import sympy
    if e % 48 == 0 and rng.random() < 0.5:
        return rng.choice([int, float, np.float64, sympy.Integer])(e // 48)
    return rng.choice([lambda: e / 48, lambda: np.float64(e / 48), lambda: sympy.Rational(e, 48)])()


def make(rng, d):
    from swiftsimio.objects import a, cosmo_factor
    s = SCALES.get(d["s"])
    if s is not None and s != 0.3 and rng.random() < 0.3:
        s = rng.choice([np.float64, np.float32])(s)
    if not d["known"]:
        return cosmo_factor(None, s)
    n = number(rng, d["e"])
    if s is not None and rng.random() < 0.5:
        return cosmo_factor.create(s, n)
    return cosmo_factor(a**n, s)


def dep(rng, scales=(1, 2, 2, 2, 3, 4, 5, 0)):
    known = rng.random() < 0.85
    e = rng.choice([rng.randrange(-4, 5) * 48, rng.randrange(-8, 9) * 24, rng.randrange(-6, 7) * 16]) if known else 0
    return dict(known=known, e=e, s=rng.choice(scales))


OPS = ["mul", "mul", "div", "div", "pow", "pow", "add", "sub", "equal", "equal", "order", "copy", "deepcopy", "pickle", "alien", "create", "build",
       "half"]


def plan(rng, model, n):
    """Operations on registers that keep exponents within reach."""
    regs = [dict(d) for d in model]
    steps = []
    while len(steps) < n:
        st = dict(op=rng.choice(OPS), x=rng.randrange(len(regs)) + 1, y=rng.randrange(len(regs)) + 1, d=rng.randrange(len(regs)) + 1, p=0, given=0)
        x, y = regs[st["x"] - 1], regs[st["y"] - 1]
        r = None
        if st["op"] in ("mul", "div") and x["s"] == y["s"] and x["known"] == y["known"]:
            r = dict(x, e=x["e"] + (y["e"] if st["op"] == "mul" else -y["e"]))
        elif st["op"] == "pow":
            st["p"] = rng.choice([0, 48, 96, -48, 24, 144, -24, 16, 72])
            if (x["e"] * st["p"]) % 48:
                continue
            r = dict(x, e=x["e"] * st["p"] // 48)
        elif st["op"] in ("copy", "deepcopy", "pickle") or (st["op"] in ("add", "sub") and x == y):
            r = dict(x)
        elif st["op"] in ("build", "create", "half"):
            st["p"], st["given"] = (x["e"], x["s"]) if rng.random() < 0.7 else (rng.randrange(-3, 4) * 48, rng.choice([1, 2, 3]))
            if st["given"] == 0:
                st["given"] = 2
            w = dict(known=True, e=st["p"], s=st["given"])
            r = w if st["op"] == "create" else dict(x) if st["op"] == "build" and w == x else None
        if r is not None:
            if abs(r["e"]) > 48 * 30:
                continue
            regs[st["d"] - 1] = r
        steps.append(st)
    return steps


def act(rng, regs, st):
    import unyt
    from swiftsimio import cosmo_array, cosmo_quantity
    from swiftsimio.objects import cosmo_factor
    x, y = regs[st["x"] - 1], regs[st["y"] - 1]
    back = rng.random() < 0.3
    op = st["op"]
    if op == "mul":
        return y.__rmul__(x) if back else x * y
    if op == "div":
        return y.__rtruediv__(x) if back else x / y
    if op == "add":
        return y.__radd__(x) if back else x + y
    if op == "sub":
        return y.__rsub__(x) if back else x - y
    if op == "pow":
        return x ** number(rng, st["p"])
    if op == "copy":
        return copy.copy(x)
    if op == "deepcopy":
        return copy.deepcopy(x)
    if op == "pickle":
        return pickle.loads(pickle.dumps(x))
    if op == "create":
        return cosmo_factor.create(SCALES[st["given"]], number(rng, st["p"]))
    if op == "alien":
        o = rng.choice(ALIENS)
        f = rng.choice([lambda: x + o, lambda: x - o, lambda: x * o, lambda: x / o, lambda: x < o, lambda: x >= o, lambda: x == o, lambda: x != o,
                        lambda: sum([x, x]), lambda: x.__radd__(o), lambda: x.__rsub__(o), lambda: x.__rmul__(o), lambda: x > o, lambda: x <= o])
        return f()
    if op in ("build", "half"):
        kw = dict(scale_factor=SCALES[st["given"]], scale_exponent=number(rng, st["p"]))
        if op == "half":
            kw.pop(rng.choice(list(kw)))
        cls, v = rng.choice([(cosmo_array, [1.0, 2.0]), (cosmo_quantity, 1.0)])
        return cls(v, unyt.Mpc, comoving=True, **(dict(cosmo_factor=x) if op == "build" or rng.random() < 0.5 else {}), **kw).cosmo_factor
    if op == "equal":
        return [bool(x == y), bool(x != y)]
    if op == "order":
        return [bool(x < y), bool(x > y), bool(x <= y), bool(x >= y)]


def history(c, atoms, steps):
    rng = c.rng
    regs = [make(rng, d) for d in atoms]
    t = dict(atoms=atoms, first=[see(r) for r in regs], steps=[])
    none = dict(known=False, e=0, s=0, f=0, hasf=False, z=True)
    for st in steps:
        st = dict(st, ok=True, err="", got=none, bools=[], after=[])
        try:
            r = act(rng, regs, st)
            if st["op"] in ("equal", "order"):
                st["bools"] = r
            elif st["op"] not in ("alien", "half"):
                st["got"] = see(r)
        except Exception as e:
            st["ok"], st["err"] = False, repr(e)[:200]
        st["after"] = [see(r) for r in regs]
        if st["ok"] and st["op"] not in ("equal", "order", "alien", "half"):
            regs[st["d"] - 1] = r
        t["steps"].append(st)
    return t


def body(c):
    rng = c.rng
    # two atoms; exponents and powers are given 100 too large
    K = dict(Exponents="{4, 100, 148, 196}", Scales="{1, 2}", Powers="{100, 52, 124, 196}", Depth=c.n(2, 3), Variant="code", Emit=False)
    inv = ["Exact", "Sound", "Alike"]
    c.model(tlc.run("Factor", tlc.cfg_text(dict(K, Exponents="{100, 148, 196}"), spec="Spec", invariants=inv, properties=["Kept"]), workers=8, timeout=800), "Factor")
    small = dict(K, Exponents="{100, 148}", Depth=2)
    for v in ("adds", "mixed", "zero", "value", "inplace", "once"):
        r = tlc.run("Factor", tlc.cfg_text(dict(small, Variant=v), spec="Spec", invariants=inv, properties=["Kept"]), workers=8, allow_violation=True)
        if not r.violated:
            raise tlc.ModelError(f"variant {v} not refuted")
    trace = []
    # every single operation, and some of the paths of two
    paths = []
    for depth, cfg in ((1, K), (2, dict(small, Scales="{2, 3}" if rng.random() < 0.5 else "{1, 2}"))):
        g = tlc.run("Factor", tlc.cfg_text(dict(cfg, Depth=depth, Emit=True), spec="Spec", invariants=["EmitPath"]), workers=8)
        c.model(g, f"Factor-paths-{depth}")
        recs = list(g.records)
        rng.shuffle(recs)
        paths += recs[:c.n(3000, 30000)]
    for rec in paths:
        trace.append(history(c, rec["atom"], [dict(s, given=0) for s in rec["hist"]]))
        c.count("replayed")
    for _ in range(c.n(500, 6000)):
        k = rng.choice([2, 3, 4])
        common_s = rng.choice([[2], [1], [4], [2, 3], [1, 2, 3, 4, 5, 0], [5]])
        atoms = [dep(rng, common_s) for _ in range(k)]
        trace.append(history(c, atoms, plan(rng, atoms, rng.choice([6, 12, 20]))))
        c.count("random")
    validate(c, "FactorTrace", trace, keyf=lambda ev, cl: ev["steps"][ev["at"] - 1]["op"] if ev["at"] else "make")
    c.assumptions += ["order is not judged where conversion factors are equal: rounding decides there"]


if __name__ == "__main__":
    sys.exit(common.main("C05", body))
