"""Operations on cosmology arrays, recorded next to the same call on their physical values.

Operands are made from physical values that survive a change of frame or unit exactly (powers of two
everywhere), so a call is also made on plain unyt arrays of the physical values and its results compared.
"""
import random
import warnings

import numpy as np
import unyt

from vt import common

for _n, _v in (("vtl4", (4.0, "kpc")), ("vtl16", (16.0, "kpc")), ("vtm2", (2.0, "Msun")), ("vtv8", (8.0, "km/s")),
               ("vtd4", (0.25, "dimensionless"))):
    if _n not in unyt.unit_registry.default_unit_registry:
        unyt.define_unit(_n, _v)
DIMS = {"L": ["kpc", "vtl4", "vtl16"], "M": ["Msun", "vtm2"], "V": ["km/s", "vtv8"], "0": ["dimensionless"]}


class Pair:
    """An operand: what swiftsimio gets (x), what the oracle gets (o)."""

    def __init__(self, x, o, label=0):
        self.x, self.o, self.label = x, o, label


_EXP = {}


def exp24(x):
    """Scale-factor exponent in 24ths (None without cosmo_factor)."""
    cf = x.cosmo_factor
    if cf is None:
        return None
    if not hasattr(cf, "expr"):
        return 9998
    if cf.expr is None:
        return None
    k = str(cf.expr)
    if k not in _EXP:
        e = -24 * float(np.log2(float(cf.expr.subs("a", 0.5)))) if cf.expr != 1 else 0
        _EXP[k] = round(e) if abs(e - round(e)) < 1e-4 else 9999
    return _EXP[k]


def physical(x):
    """Plain array of the physical values, in the units of x."""
    v = np.array(np.asarray(x).view(np.ndarray))
    if x.comoving and exp24(x) and exp24(x) < 9000:
        v = v * float(x.cosmo_factor.scale_factor) ** (exp24(x) / 24)
    return v


def close(u, v):
    u, v = np.asarray(u), np.asarray(v)
    if u.shape != v.shape:
        return False
    if u.dtype.kind in "bOSU" or v.dtype.kind in "bOSU":
        return bool((u == v).all())
    u, v = u.astype(complex), v.astype(complex)
    if (np.isnan(u) != np.isnan(v)).any():
        return False
    u, v = u[~np.isnan(u)], v[~np.isnan(v)]
    inf = np.isinf(v)
    if (u[inf] != v[inf]).any():
        return False
    u, v = u[~inf], v[~inf]
    return bool(np.allclose(u, v, rtol=1e-6, atol=1e-6 * (np.abs(v).max() if v.size else 0)))


def agree(x, o):
    """Does x denote the physical quantity o?"""
    import swiftsimio as sw

    if o is None or isinstance(o, str):
        return x is None or isinstance(x, str)
    try:
        if isinstance(o, (list, tuple)):
            return len(x) == len(o) and all(agree(p, q) for p, q in zip(x, o))
        v = physical(x) if isinstance(x, sw.cosmo_array) else np.asarray(x)
        if isinstance(o, unyt.unyt_array):
            u = getattr(x, "units", unyt.dimensionless)
            if u.dimensions != o.units.dimensions:
                return False
            v = v * float(u.base_value / o.units.base_value)
        elif hasattr(x, "units"):
            if not x.units.is_dimensionless:
                return False
            v = v * float(x.units.base_value) if x.units.base_value != 1 else v
        return close(v, np.asarray(o))
    except (TypeError, ValueError, AttributeError):
        return False


def meta(x, s=0):
    import swiftsimio as sw

    if not isinstance(x, sw.cosmo_array):
        return dict(q=False, e=0, fr="n", vt=True, s=0, bare=True)
    e = exp24(x)
    return dict(q=True, e=e or 0, fr={True: "c", False: "p", None: "n"}[x.comoving], vt=bool(x.valid_transform), s=s,
                bare=e is None)


def snap(x):
    """Everything observable of an operand."""
    if isinstance(x, (list, tuple)):
        return [snap(y) for y in x]
    if isinstance(x, np.ndarray):
        v = np.asarray(x).view(np.ndarray)
        return (type(x).__name__, v.tobytes(), str(v.dtype), v.shape, str(getattr(x, "units", "")),
                repr(getattr(x, "cosmo_factor", "")), repr(getattr(x, "comoving", "")),
                repr(getattr(x, "valid_transform", "")), repr(getattr(x, "compression", "")))
    return repr(x)


class Gen:
    """Operands of one call.  Groups share a dimension; the exponent of a group is that of its operands, mostly."""

    def __init__(self, sw, rng, dims=None, scaled=True, frames="cccpppn", epochs=True):
        self.sw, self.rng = sw, rng
        self.a = rng.choice([2.0**-8, 2.0**-8, 2.0**-4, 2.0**-12, 1.0])
        self.scaled = scaled
        self.unknown = "n" in frames and rng.random() < 0.06
        self.dim, self.exp = {}, {}
        self.dims = dims or "LMV0"
        self.ops = []
        self.mixed_epoch = epochs and rng.random() < 0.03
        self.unit = {} if rng.random() < 0.6 else None  # one unit per dimension
        self.deviate = rng.random() < 0.3

    def spec(self, group):
        rng = self.rng
        if group not in self.dim:
            self.dim[group] = rng.choice(self.dims)
            self.exp[group] = rng.choice([0, 24, 24, 24, -48, -72, 12, 6]) if self.scaled else 0
        return self.dim[group], self.exp[group]

    def values(self, shape, sign=False, unique=False, lo=1, hi=12):
        n = int(np.prod(shape))
        if unique:
            v = self.rng.sample(range(lo, lo + 4 * max(n, 4)), n)
        else:
            v = [self.rng.randint(lo, hi) for _ in range(n)]
        if sign:
            v = [x * self.rng.choice([1, -1]) for x in v]
        return np.array(v, dtype=float).reshape(shape) * 0.5

    def q(self, group, shape=(4,), vals=None, dev=True, sign=True, int_ok=False, plain=False, unique=False, keep=None):
        """A quantity (or, if `plain`, perhaps a number or a unyt array)."""
        rng, sw = self.rng, self.sw
        dim, e = self.spec(group)
        P = self.values(shape, sign, unique) if vals is None else np.array(vals, dtype=float)
        if vals is not None and shape == () :
            P = P.reshape(())
        elif vals is not None and int(np.prod(shape)) == P.size:
            P = P.reshape(shape)
        shape = P.shape
        u = rng.choice(DIMS[dim])
        if self.unit is not None:
            u = self.unit.setdefault(dim, u)
        k = unyt.Unit(DIMS[dim][0]).get_conversion_factor(unyt.Unit(u))[0]
        if plain and rng.random() < 0.25:
            if dim == "0":
                x = P * k if shape else float(P * k)
                p = Pair(x, x)
            else:
                x = unyt.unyt_array(P * k, u) if shape else unyt.unyt_quantity(float(P * k), u)
                p = Pair(x, x.copy())
            self.ops.append(p)
            return p
        if dev and self.scaled and self.deviate and rng.random() < 0.4:
            e = e + rng.choice([-24, 24, 12, 6])
        a = self.a
        if self.mixed_epoch and rng.random() < 0.5:
            a = self.a * 0.0625
        fr = "n" if self.unknown else rng.choice("cp")
        vt = fr == "c" or (fr == "p" and rng.random() < 0.75)
        v = P * k / (a ** (e / 24) if fr == "c" else 1.0)
        if int_ok and (v == np.round(v)).all() and np.abs(v).sum() < 2**40 and rng.random() < 0.2:
            v = v.astype("i8")
        kw = dict(comoving={"c": True, "p": False, "n": None}[fr], scale_factor=a, scale_exponent=e / 24,
                  compression=rng.choice([None, None, "FMantissa9"]))
        if fr != "n":
            kw["valid_transform"] = vt
        if shape == ():
            x = sw.cosmo_quantity(v.item(), u, **kw)
            o = unyt.unyt_quantity(float(P * k), u)
        else:
            x = sw.cosmo_array(v, u, **kw)
            o = unyt.unyt_array(P * k, u)
        p = Pair(x, o, label=round(-np.log2(a)) + 1)
        self.ops.append(p)
        return p

    def n(self, x):
        """A fixed plain argument, the same for both."""
        return x


class Call:
    """name: operation in CalcOps.  args(g): operands, in the order the specification numbers them.
    fn(m, *operands): the call; returns the result(s).  target: index of the operand that is written to."""

    def __init__(self, name, label, args, fn, p=None, target=None, outs=None, **gen):
        self.name, self.label, self.args, self.fn = name, label, args, fn
        self.p, self.target, self.outs, self.gen = p or (lambda *a: (1, 1)), target, outs, gen


def outlist(r, target):
    if r is None and target is not None:
        return [target]
    if isinstance(r, (list, tuple)):
        return list(r)
    return [r]


def perform(call, pairs, p=None):
    """Run the call on both sides; returns (record, result pairs)."""
    xs, os_ = [p.x for p in pairs], [p.o for p in pairs]
    before = [snap(x) for x in xs]
    if call.target is not None:
        os_[call.target] = os_[call.target].copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        orefused, refused, oerr, err = False, False, "", ""
        shapes = [np.shape(o) for o in os_]
        pq = call.p(*os_) if p is None else p
        try:
            with np.errstate(all="ignore"):
                ores = outlist(call.fn(np, *os_), None if call.target is None else os_[call.target])
        except Exception as e:
            orefused, oerr, ores = True, repr(e)[:120], []
        try:
            with np.errstate(all="ignore"):
                res = outlist(call.fn(np, *xs), None if call.target is None else xs[call.target])
        except Exception as e:
            refused, err, res = True, repr(e)[:200], []
    tgt = None if call.target is None else xs[call.target]
    changed = [i + 1 for i, x in enumerate(xs) if x is not tgt and snap(x) != before[i]]
    outs = []
    label = max([p.label for p in pairs], default=0)
    if not (refused or orefused):
        if len(res) != len(ores):
            outs = [dict(meta(None), agree=False)]
        else:
            for x, o in zip(res, ores):
                outs.append(dict(meta(x, label), agree=agree(x, o)))
    rec = dict(op=call.name, label=call.label, refused=refused, orefused=orefused, changed=changed, outs=outs,
               p=int(pq[0]), q=int(pq[1]), d=0, err=err, oerr=oerr)
    return rec, [Pair(x, o, label) for x, o in zip(res, ores)]


def single(sw, rng, call):
    """One call on fresh operands."""
    g = Gen(sw, rng, **call.gen)
    pairs = call.args(g)
    regs = [dict(meta(p.x, p.label), agree=True) for p in pairs]
    rec, _ = perform(call, pairs)
    rec["args"] = list(range(1, len(pairs) + 1))
    return dict(regs=regs, ops=[rec])
