"""C02: arithmetic does not depend on the frame of its operands."""
import operator
import sys
import warnings

import numpy as np

from vt import common, tlc
from vt.checks import calc, calcops
from vt.checks.calc import Call, Gen, Pair, meta, perform
from vt.checks.R02 import validate
from vt.common import fan

CL = {"valid-combination-accepted", "different-exponents-refused", "frame-independent-value", "exponent-of-result",
      "result-is-quantity", "convertible-only-if-operands-are", "consistent-attributes", "frame-known"}
U = calcops.u
BIN = [("add", operator.add), ("subtract", operator.sub), ("multiply", operator.mul), ("divide", operator.truediv),
       ("maximum", U("maximum")), ("less", operator.lt), ("equal", operator.eq)]


def wrap(f):
    return f if f.__module__ != "_operator" else (lambda m, *a: f(*a))


def C(name, fn, **k):
    return Call(name, k.pop("label", name), None, wrap(fn), **k)


BINARY = [C(n, f) for n, f in BIN] + [C("minimum", U("minimum")), C("hypot", U("hypot")), C("multiply", U("multiply")),
                                      C("add", U("add")), C("greater", operator.gt),
                                      C("arctan2", U("arctan2")), C("greater_equal", U("greater_equal"))]
UNARY = [C("negative", operator.neg), C("absolute", operator.abs), C("square", U("square"), p=lambda *a: (2, 1)),
         C("reciprocal", U("reciprocal"), p=lambda *a: (-1, 1)), C("power", lambda m, x: x ** 3, p=lambda *a: (3, 1)),
         C("sqrt", lambda m, x: m.sqrt(abs(x)), p=lambda *a: (1, 2)), C("accumulate", U("cumsum")),
         C("flip", lambda m, x: x[::-1]), C("sum", U("sum")), C("max", lambda m, x: x.max()), C("isfinite", U("isfinite")),
         C("sort", U("sort")), C("power", lambda m, x: x ** 0, p=lambda *a: (0, 1))]
INPLACE = [C("add", operator.iadd, target=0), C("subtract", operator.isub, target=0), C("multiply", operator.imul, target=0),
           C("divide", operator.itruediv, target=0), C("power", lambda m, x: operator.ipow(x, 2), target=0, p=lambda *a: (2, 1))]
MODEL = dict(add=INPLACE[0], subtract=INPLACE[1], multiply=INPLACE[2], divide=INPLACE[3])


def frame(rng):
    fr = rng.choice("cp")
    how = rng.randrange(3)

    def fn(m, x):
        if not hasattr(x, "comoving"):
            return x.copy()
        if how == 0:
            return x.to_comoving() if fr == "c" else x.to_physical()
        return x.to(comoving=fr == "c") if how == 1 else x.to(x.units, comoving=fr == "c")
    return Call("frame", "frame" + fr, None, fn)


def inframe(fr):
    def fn(m, x):
        if hasattr(x, "comoving"):
            x.convert_to_comoving() if fr == "c" else x.convert_to_physical()
        return x
    return Call("frame", "inframe" + fr, None, fn, target=0)




class Program:
    """Registers that calls read and write."""

    def __init__(self, pairs):
        self.r = list(pairs)
        self.ev = dict(regs=[dict(meta(p.x, p.label), agree=calc.agree(p.x, p.o)) for p in pairs], ops=[])

    def do(self, call, args, d):
        """Registers `args` (from 0); the result goes to register d (None: nowhere)."""
        if call.target is not None:  # in place: on a copy, unless the target is the destination
            assert d == args[0]
        pairs = [self.r[i] for i in args]
        if call.target is not None and args[0] in args[1:]:
            pairs = [pairs[0]] + [p if i != args[0] else Pair(p.x.copy(), p.o.copy(), p.label) for i, p in zip(args[1:], pairs[1:])]
        rec, res = perform(call, pairs)
        rec["args"] = [i + 1 for i in args]
        keep = d is not None and not rec["refused"] and not rec["orefused"] and len(res) == 1 and hasattr(res[0].o, "units") \
            and np.shape(res[0].o) == (3,) and np.asarray(res[0].o).dtype.kind == "f"
        rec["d"] = d + 1 if keep else 0
        if keep:
            self.r[d] = res[0] if call.target is not None else Pair(res[0].x.copy(), res[0].o.copy(), res[0].label)
        self.ev["ops"].append(rec)
        return keep


def tie(o1, o2):
    try:
        return bool(np.isclose(np.asarray(o1), np.asarray((o2 + 0 * o1)), rtol=1e-9, atol=0).any())
    except Exception:
        return False


def program(sw, rng, n):
    """A random sequence of calls."""
    g = Gen(sw, rng, dims="LM0" if rng.random() < 0.5 else "L")
    g.mixed_epoch = False
    pairs = [g.q(rng.choice("xxxy"), (3,), plain=rng.random() < 0.3) for _ in range(4)]
    if not any(hasattr(p.x, "comoving") for p in pairs):
        pairs.append(g.q("x", (3,)))
    P = Program(pairs)
    R = range(len(pairs))
    for _ in range(n):
        x = rng.random()
        q = [i for i in R if hasattr(P.r[i].x, "comoving")]
        if not q:
            break
        i = rng.choice(q)
        if x < 0.45:
            call = rng.choice(BINARY)
            j = rng.choice(R)
            args = [i, j] if rng.random() < 0.6 else [j, i]
            plain = not hasattr(P.r[j].x, "comoving")
            if plain and call.name not in ("multiply", "divide"):
                continue
            if call.name in ("less", "greater", "equal", "greater_equal") and tie(P.r[args[0]].o, P.r[args[1]].o):
                continue
            P.do(call, args, rng.choice(R))
        elif x < 0.65:
            call = rng.choice(UNARY)
            e = calc.exp24(P.r[i].x)
            if call.name == "sqrt" and (e is None or e % 4) or abs(e or 0) > 200:
                continue
            P.do(call, [i], rng.choice(R))
        elif x < 0.8:
            call = rng.choice(INPLACE)
            j = rng.choice(R)
            if abs(calc.exp24(P.r[i].x) or 0) > 200:
                continue
            plain = not hasattr(P.r[j].x, "comoving")
            if call.name == "power":
                P.do(call, [i], i)
            elif plain and call.name in ("add", "subtract"):
                continue
            else:
                P.do(call, [i, j], i)
        elif P.r[i].x.comoving is None:
            continue
        elif x < 0.92:
            call = frame(rng)
            if not P.r[i].x.valid_transform:
                continue
            P.do(call, [i], rng.choice(R))
        elif P.r[i].x.valid_transform:
            P.do(inframe(rng.choice("cp")), [i], i)
        if any(hasattr(p.o, "units") and not ((np.abs(np.asarray(p.o)) < 1e60).all() and 1e-120 < p.o.units.base_value < 1e120)
               for p in P.r) or \
                any(hasattr(p.x, "comoving") and abs(calc.exp24(p.x) or 0) > 500 for p in P.r):
            break
    return P.ev


def replay(sw, rng, hist):
    """A path of Calc with real quantities; every operation also in its in-place form where it has one."""
    g = Gen(sw, rng, dims="L")
    g.a = 0.5
    pairs = []
    for x in hist[0]["x"]:
        if not x["q"]:
            v = np.full(3, float(x["v"]))
            pairs.append(Pair(v, v.copy()))
            continue
        k = sw.cosmo_array(np.full(3, float(x["v"])) / (0.5 ** x["e"] if x["fr"] == "c" else 1.0), "kpc", comoving=x["fr"] == "c",
                           scale_factor=0.5, scale_exponent=x["e"], valid_transform=x["vt"])
        pairs.append(Pair(k, calc.unyt.unyt_array(np.full(3, float(x["v"])), "kpc"), 2))
    # two additive operands of different dimension are no concern here: every register is a length
    P = Program(pairs)
    for k in hist[1:]:
        i, j, d = k["i"] - 1, k["j"] - 1, k["d"] - 1
        if k["op"].startswith("frame"):
            if hasattr(P.r[i].x, "comoving"):
                P.do(inframe(k["op"][-1]), [i], i)
            continue
        if k["op"] in MODEL and d == i and hasattr(P.r[i].x, "comoving") and rng.random() < 0.5:
            P.do(MODEL[k["op"]], [i, j], i)
        else:
            P.do(C(k["op"], dict(BIN)[k["op"]]), [i, j], d)
    return P.ev


def body(c):
    import swiftsimio as sw

    warnings.simplefilter("ignore")
    K = dict(spec="Spec", invariants=["DenotesPhys", "NothingBad", "Consistent"], view="View")
    m = tlc.run("Calc", tlc.cfg_text(dict(N=2, Depth=2, Variant="code", Emit=True), action_constraints=["EmitStep"], **K), workers=8)
    c.model(m, "Calc")
    if c.thorough:
        c.model(tlc.run("Calc", tlc.cfg_text(dict(N=2, Depth=4, Variant="code", Emit=False), **K), workers=8, timeout=2000, mem="12g"),
                "Calc-4")
    for var in ("no-convert", "convert-wrong-way", "exponent-of-first", "any-vt", "target-keeps-frame"):
        b = tlc.run("Calc", tlc.cfg_text(dict(N=2, Depth=2, Variant=var, Emit=False), **K), workers=8, allow_violation=True)
        assert b.violated, var
        c.info.setdefault("broken_variants_refuted", []).append(f"Calc:{var}")
    recs = m.records
    assert len(recs) > 20000, len(recs)
    c.rng.shuffle(recs)
    recs = recs[:c.n(4000, 60000)]

    def rep(c, n):
        i = int(c.tmp.rsplit("/", 1)[1].split("_")[0])
        return [replay(sw, c.rng, x) for x in recs[i::8]]

    trace = fan(c, rep, 8)
    c.info["replayed"] = len(trace)

    def run(c, n):
        out = []
        for i in range(n):
            if c.rng.random() < 0.75:
                out.append(calc.single(sw, c.rng, c.rng.choice(calcops.OPS)))
            else:
                out.append(program(sw, c.rng, c.rng.randint(3, 9)))
        return out

    trace += fan(c, run, c.n(9000, 200000))
    for t in trace:
        for o in t["ops"]:
            c.count("refused" if o["refused"] else "accepted")
            c.count("op_" + o["op"])
    validate(c, "CalcTrace", trace, keyf=lambda ev, cl: ev["ops"][ev["at"] - 1]["label"], clauses=CL)


if __name__ == "__main__":
    sys.exit(common.main("C02", body))
