"""The calls of C02 (element-wise operations) and C03 (numpy functions)."""
import operator

import numpy as np
import unyt

from vt.checks.calc import Call

S = (4,)


def two(shape=S, shape2=None, **k):
    return lambda g: [g.q("x", shape, **k), g.q("x", shape2 if shape2 is not None else shape, **k)]


def one(shape=S, **k):
    return lambda g: [g.q("x", shape, **k)]


def prod2(shape=S, shape2=None, **k):
    """Two factors, at least one of them a quantity."""
    def f(g):
        i = g.rng.random() < 0.5
        return [g.q("x", shape, plain=i, **k), g.q("y", shape2 if shape2 is not None else shape, plain=not i, **k)]
    return f


def rshape(f):
    """Draw the shapes of two broadcastable operands."""
    def h(g):
        s, t = g.rng.choice([((4,), (4,)), ((2, 3), (3,)), ((), ()), ((3,), ()), ((), (3,)), ((2, 1), (2, 3)), ((1,), (3,)),
                             ((0,), (0,))])
        return f(s, t)(g)
    return h


def u(name):
    return lambda m, *a: getattr(m, name)(*a)


OPS = []


def add(name, label, args, fn, **k):
    OPS.append(Call(name, label, args, fn, **k))


for nm in ("add", "subtract", "maximum", "minimum", "fmax", "fmin", "hypot", "remainder", "fmod"):
    add(nm, "np." + nm, rshape(lambda s, t, ok=nm in ("add", "subtract", "maximum", "minimum"): two(s, t, int_ok=ok)), u(nm))
for nm, op in (("add", operator.add), ("subtract", operator.sub), ("remainder", operator.mod)):
    add(nm, "operator " + nm, rshape(lambda s, t: two(s, t)), lambda m, x, y, op=op: op(x, y))
for nm in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_xor"):
    add(nm, "np." + nm, rshape(lambda s, t: two(s, t)), u(nm))
for nm in ("lt", "le", "gt", "ge", "eq", "ne"):
    add({"lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal", "eq": "equal", "ne": "not_equal"}[nm],
        "operator " + nm, rshape(lambda s, t: two(s, t)), lambda m, x, y, nm=nm: getattr(operator, nm)(x, y))
add("floor_divide", "np.floor_divide", rshape(lambda s, t: two(s, t)), u("floor_divide"))
add("floor_divide", "operator //", rshape(lambda s, t: two(s, t)), lambda m, x, y: x // y)
add("divmod", "np.divmod", rshape(lambda s, t: two(s, t)), u("divmod"))
add("divmod", "divmod", rshape(lambda s, t: two(s, t)), lambda m, x, y: divmod(x, y))
add("arctan2", "np.arctan2", rshape(lambda s, t: two(s, t)), u("arctan2"))
add("copysign", "np.copysign", lambda g: [g.q("x", S, dev=False), g.q("x", S, dev=False)], u("copysign"))
for nm in ("multiply",):
    add(nm, "np." + nm, rshape(lambda s, t: prod2(s, t, int_ok=True)), u(nm))
    add(nm, "operator *", rshape(lambda s, t: prod2(s, t)), lambda m, x, y: x * y)
for nm in ("divide", "true_divide"):
    add(nm, "np." + nm, rshape(lambda s, t: prod2(s, t)), u(nm))
add("divide", "operator /", rshape(lambda s, t: prod2(s, t)), lambda m, x, y: x / y)
add("matmul", "np.matmul", prod2((2, 3), (3, 2)), u("matmul"))
add("matmul", "operator @", prod2((2, 2), (2, 2)), lambda m, x, y: x @ y)
add("vecdot", "np.vecdot", prod2((2, 3), (2, 3)), u("vecdot"))
for nm in ("negative", "absolute", "fabs", "conjugate", "positive"):
    add(nm, "np." + nm, rshape(lambda s, t: one(s)), u(nm))
add("negative", "operator -", one(), lambda m, x: -x)
add("absolute", "abs", one(), lambda m, x: abs(x))
for pw in (2, 3, 0, 1, -1, 0.5, -0.5, 1.5):
    add("power", f"np.power {pw}", one((3,), sign=False), lambda m, x, pw=pw: m.power(x, pw), p=lambda x, pw=pw: (2 * pw, 2))
    add("power", f"operator ** {pw}", one((3,), sign=False), lambda m, x, pw=pw: x ** pw, p=lambda x, pw=pw: (2 * pw, 2))


def exponent(g, shape=(), vals=None):
    """An exponent: a dimensionless quantity, perhaps in units that have a scale."""
    g.dim.update(z="0"), g.exp.update(z=0)
    p = g.q("z", shape, vals=vals)
    p.o = p.o.to("dimensionless")   # (unyt takes the values of an exponent as they are)
    if g.rng.random() < 0.4:
        p.x = p.x.to("vtd4")
    return p


for pw in (2, -1, 0.5, 0, 3):
    for lab, f in (("np.power", lambda m, x, y: m.power(x, y)), ("operator **", lambda m, x, y: x ** y)):
        add("power_q", f"{lab} quantity {pw}", lambda g, pw=pw: [g.q("x", (3,), sign=False), exponent(g, (), [pw])], f,
            p=lambda x, y, pw=pw: (2 * pw, 2))
        add("power_q", f"{lab} quantities {pw}", lambda g, pw=pw: [g.q("x", (3,), sign=False), exponent(g, (3,), [pw] * 3)], f,
            p=lambda x, y, pw=pw: (2 * pw, 2))
        add("power", f"{lab} array {pw}", one((3,), sign=False), lambda m, x, pw=pw, f=f: f(m, x, np.array([pw] * 3, dtype=float)),
            p=lambda x, pw=pw: (2 * pw, 2))
        add("power", f"{lab} unyt {pw}", one((3,), sign=False), lambda m, x, pw=pw, f=f: f(m, x, unyt.unyt_quantity(pw, "dimensionless")),
            p=lambda x, pw=pw: (2 * pw, 2))
for lab, f in (("np.power", lambda m, x, y: m.power(x, y)), ("operator **", lambda m, x, y: x ** y)):
    # several exponents: no exponent of the scale factor for all of them
    add("power_each", lab + " array", lambda g: [g.q("x", (3,), sign=False)],
        lambda m, x, f=f: f(m, x, np.array([1.0, 2.0, 0.5])), dims="0")
    add("power_each", lab + " quantities", lambda g: [g.q("x", (3,), sign=False), exponent(g, (3,), [1, 2, 3])], f, dims="0")
    add("rpower", lab + " 2", lambda g: [exponent(g, (3,))], lambda m, x, f=f: f(m, 2.0, x))
add("sqrt", "np.sqrt", one(sign=False), u("sqrt"), p=lambda x: (1, 2))
add("square", "np.square", one(), u("square"), p=lambda x: (2, 1))
add("cbrt", "np.cbrt", one(), u("cbrt"), p=lambda x: (1, 3))
add("reciprocal", "np.reciprocal", one(), u("reciprocal"), p=lambda x: (-1, 1))
for nm in ("isfinite", "isnan", "isinf", "signbit", "sign", "logical_not"):
    add(nm, "np." + nm, one(), u(nm))
for nm in ("exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "arctan", "sinh", "cosh", "tanh", "arcsinh",
           "arcsin", "arccos", "arctanh", "arccosh", "floor", "ceil", "trunc", "rint", "deg2rad", "rad2deg"):
    add("exp", "np." + nm, lambda g: [g.q("x", S, sign=False)], u(nm), dims="0", scaled=False)
# comparisons with a plain zero
add("isfinite", "x > 0", one(), lambda m, x: x > 0)
add("isfinite", "0 <= x", one(), lambda m, x: 0 <= x)
add("isfinite", "x == 0", one(), lambda m, x: x == 0)
# products with units
for un in ("kpc", "Msun"):
    import unyt as _u

    _unit = _u.Unit(un)
    add("negative", "x * unit", one(), lambda m, x, _unit=_unit: x * _unit)
    add("negative", "unit * x", one(), lambda m, x, _unit=_unit: _unit * x)
    add("negative", "x / unit", one(), lambda m, x, _unit=_unit: x / _unit)
# reductions
for nm, ufn, ax in (("sum", "add", None), ("sum", "add", 0), ("sum", "add", 1), ("max", "maximum", 0), ("min", "minimum", None)):
    add(nm, f"np.{ufn}.reduce axis={ax}", one((2, 3)), lambda m, x, ufn=ufn, ax=ax: getattr(m, ufn).reduce(x, axis=ax))
for ax, cnt in ((None, 6), (0, 2), (1, 3), (-1, 3)):
    add("multiply_reduce", f"np.multiply.reduce axis={ax}", one((2, 3)), lambda m, x, ax=ax: m.multiply.reduce(x, axis=ax),
        p=lambda x, cnt=cnt: (cnt, 1))
with_initial = lambda g: [g.q("x", (2, 3)), g.q("x", ())]
for ufn in ("add", "maximum", "minimum"):
    add("add" if ufn == "add" else "maximum", f"np.{ufn}.reduce initial", with_initial,
        lambda m, x, y, ufn=ufn: getattr(m, ufn).reduce(x, axis=0, initial=y))
for nm in ("sum", "max", "min"):
    add("add", f".{nm} initial", with_initial, lambda m, x, y, nm=nm: getattr(x, nm)(axis=1, initial=y))
add("divide_reduce", "np.divide.reduce", one((3,)), lambda m, x: m.divide.reduce(x), p=lambda x: (-1, 1))
for nm, ufn in (("accumulate", "add"), ("accumulate", "maximum"), ("accumulate", "minimum")):
    add(nm, f"np.{ufn}.accumulate", one((4,)), lambda m, x, ufn=ufn: getattr(m, ufn).accumulate(x))
add("add", "np.add.outer", two((2,), (3,)), lambda m, x, y: m.add.outer(x, y))
add("multiply", "np.multiply.outer", prod2((2,), (3,)), lambda m, x, y: m.multiply.outer(x, y))
add("divide", "np.divide.outer", prod2((2,), (3,)), lambda m, x, y: m.divide.outer(x, y))
add("less", "np.less.outer", two((2,), (3,)), lambda m, x, y: m.less.outer(x, y))
for nm in ("logical_and", "logical_or"):
    add("logical_reduce", f"np.{nm}.reduce", one(), lambda m, x, nm=nm: getattr(m, nm).reduce(x))
# methods
for nm in ("sum", "max", "min", "mean", "std", "cumsum"):
    add(nm, "." + nm, one((2, 2)), lambda m, x, nm=nm: getattr(x, nm)())
for nm in ("sum", "max", "min", "mean", "std", "cumsum"):
    add(nm, f".{nm}(axis=0)", one((2, 3)), lambda m, x, nm=nm: getattr(x, nm)(axis=0))
add("var", ".var", one((2, 2)), lambda m, x: x.var(), p=lambda x: (2, 1))
add("prod", ".prod", one((2, 2)), lambda m, x: x.prod(), p=lambda x: (4, 1))
add("prod", ".prod(axis=1)", one((2, 3)), lambda m, x: x.prod(axis=1), p=lambda x: (3, 1))
add("dot", ".dot", lambda g: [g.q("x", (2, 2)), g.q("y", (2, 2), plain=True)], lambda m, x, y: x.dot(y))
for nm in ("argmax", "argmin", "argsort", "all", "any", "nonzero"):
    add(nm, "." + nm, one(unique=True), lambda m, x, nm=nm: getattr(x, nm)())
for nm, f in (("take", lambda m, x: x.take([0, 2])), ("repeat", lambda m, x: x.repeat(2)), ("reshape", lambda m, x: x.reshape(2, 2)),
              ("take", lambda m, x: x[1:3]), ("take", lambda m, x: x[2]), ("compress", lambda m, x: x.compress([True, False, True, True]))):
    add(nm, "method " + nm, one(), f)
# targets
for nm, op in (("add", operator.iadd), ("subtract", operator.isub)):
    add(nm, f"in place {nm}", two(), lambda m, x, y, op=op: op(x, y), target=0)
for nm, op in (("multiply", operator.imul), ("divide", operator.itruediv)):
    add(nm, f"in place {nm}", lambda g: [g.q("x"), g.q("y", plain=True)], lambda m, x, y, op=op: op(x, y), target=0)
add("power", "in place **", one(), lambda m, x: operator.ipow(x, 2), target=0, p=lambda x: (2, 1))


def out3(shape=S):
    return lambda g: [g.q("x", shape), g.q("x", shape), g.q("x", shape, dev=False)]


add("add_out", "np.add out", out3(), lambda m, x, y, z: m.add(x, y, out=z), target=2)
add("add_out", "np.maximum out", out3(), lambda m, x, y, z: m.maximum(x, y, out=z), target=2)
add("mul_out", "np.multiply out", lambda g: [g.q("x"), g.q("y"), g.q("x", dev=False)], lambda m, x, y, z: m.multiply(x, y, out=z),
    target=2)
add("sqrt_out", "np.sqrt out", lambda g: [g.q("x", sign=False), g.q("x", dev=False)], lambda m, x, z: m.sqrt(x, out=z), target=1,
    p=lambda *a: (1, 2))
add("sum_out", "np.add.reduce out", lambda g: [g.q("x", (2, 3)), g.q("x", (3,), dev=False)],
    lambda m, x, z: m.add.reduce(x, axis=0, out=z), target=1)

# ------------------------------------------------------------------ numpy functions
FUNCS = []


def fun(name, label, args, fn, **k):
    # operands of different epochs only where all of them are combined
    k.setdefault("epochs", name in ("concatenate", "stack", "vstack", "hstack", "append", "union1d", "where", "select", "choose", "dot",
                                    "outer", "copyto", "array_equal", "linspace", "insert", "convolve", "put", "block"))
    FUNCS.append(Call(name, label, args, fn, **k))


def many(shape=(3,), n=None):
    return lambda g: [g.q("x", shape) for _ in range(n or g.rng.randint(1, 3))]


# joining
for nm in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack"):
    fun(nm, "np." + nm, many(), lambda m, *x, nm=nm: getattr(m, nm)(list(x)))
    fun(nm, f"np.{nm} 2d", many((2, 2)), lambda m, *x, nm=nm: getattr(m, nm)(tuple(x)))
fun("concatenate", "np.concatenate axis=1", many((2, 2)), lambda m, *x: m.concatenate(x, axis=1))
fun("concatenate", "np.concatenate axis=None", many((2, 2)), lambda m, *x: m.concatenate(x, axis=None))
fun("stack", "np.stack axis=1", many((2, 2)), lambda m, *x: m.stack(x, axis=1))
fun("block", "np.block", many((3,)), lambda m, *x: m.block(list(x)))
fun("block", "np.block nested", lambda g: [g.q("x", (2, 2)) for _ in range(4)], lambda m, a, b, c, d: m.block([[a, b], [c, d]]))
fun("append", "np.append", two(), lambda m, x, y: m.append(x, y))
fun("construct", "cosmo_array([q, ...])", many((3,)),
    lambda m, *x: __import__("swiftsimio").cosmo_array(list(x)) if hasattr(x[0], "comoving") else m.stack(x))
fun("construct", "cosmo_array([scalar, ...])", many(()),
    lambda m, *x: __import__("swiftsimio").cosmo_array(list(x)) if hasattr(x[0], "comoving") else m.stack(x))
# reductions starting from a value
for nm in ("sum", "max", "min", "amax", "amin", "nansum", "nanmax", "nanmin"):
    fun("add", f"np.{nm} initial", with_initial, lambda m, x, y, nm=nm: getattr(m, nm)(x, axis=0, initial=y))
    fun("add", f"np.{nm} initial all", with_initial, lambda m, x, y, nm=nm: getattr(m, nm)(x, None, initial=y))
# sets and order
small = dict(vals=None)


def sets(g):
    return [g.q("x", vals=[g.rng.randint(1, 5) for _ in range(4)]), g.q("x", vals=[g.rng.randint(1, 5) for _ in range(4)])]


for nm in ("union1d", "intersect1d", "setdiff1d", "setxor1d", "isin"):
    fun(nm, "np." + nm, sets, u(nm))
fun("isin", "np.isin invert", sets, lambda m, x, y: m.isin(x, y, invert=True))
fun("unique", "np.unique", lambda g: [g.q("x", vals=[1, 2, 2, 5])], u("unique"))
fun("unique_counts", "np.unique counts", lambda g: [g.q("x", vals=[1, 2, 2, 5])], lambda m, x: m.unique(x, return_counts=True))
for nm in ("sort", "sort_complex"):
    fun(nm, "np." + nm, one(), u(nm))
fun("sort", "np.sort axis=0", one((2, 3)), lambda m, x: m.sort(x, axis=0))
fun("partition", "np.partition", one((4,)), lambda m, x: m.partition(x, 2))
for nm in ("argsort", "argmax", "argmin", "count_nonzero", "nonzero", "flatnonzero", "argwhere", "isreal", "all", "any", "size", "shape"):
    fun(nm, "np." + nm, one(unique=True), u(nm))
for side in ("left", "right"):
    fun("searchsorted", f"np.searchsorted {side}", lambda g: [g.q("x", vals=[1, 2, 4, 8]), g.q("x", sign=False)],
        lambda m, x, y, side=side: m.searchsorted(x, y, side=side))
fun("digitize", "np.digitize", lambda g: [g.q("x", sign=False), g.q("x", vals=[1, 2, 4, 8])], u("digitize"))
# comparisons
for nm in ("allclose", "isclose", "array_equal", "array_equiv"):
    fun(nm, "np." + nm, lambda g: [g.q("x", vals=[2, 4, 8]), g.q("x", vals=g.rng.choice([[2, 4, 8], [2, 4, 8], [2, 4, 9]]))],
        lambda m, x, y, nm=nm: getattr(m, nm)(x, y, **({"atol": 0} if "close" in nm else {})))
for nm in ("allclose", "isclose"):
    fun(nm, f"np.{nm} atol", lambda g: [g.q("x", vals=[2, 4, 8]), g.q("x", vals=g.rng.choice([[2, 4, 9], [2, 5, 11]])), g.q("x", (), vals=[2])],
        lambda m, x, y, t, nm=nm: getattr(m, nm)(x, y, rtol=0.0, atol=t))
    fun(nm, f"np.{nm} rtol", lambda g: [g.q("x", vals=[2, 4, 8]), g.q("x", vals=g.rng.choice([[2, 4, 9], [2, 5, 11]]))],
        lambda m, x, y, nm=nm: getattr(m, nm)(x, y, rtol=0.25, atol=0))
# products
M2 = ((2, 2), (2, 2))
for nm, s1, s2 in (("dot", (2, 2), (2, 2)), ("dot", (3,), (3,)), ("vdot", (3,), (3,)), ("inner", (2, 3), (2, 3)), ("outer", (2,), (3,)),
                   ("kron", (2, 2), (2, 2)), ("cross", (3,), (3,)), ("convolve", (4,), (2,)), ("correlate", (4,), (2,))):
    fun(nm, f"np.{nm} {s1}", prod2(s1, s2), u(nm))
fun("outer", "np.linalg.outer", prod2((2,), (3,)), lambda m, x, y: m.linalg.outer(x, y))
fun("cross", "np.cross axis", prod2((3, 2), (3, 2)), lambda m, x, y: m.cross(x, y, axisa=0, axisb=0))
fun("tensordot", "np.tensordot", prod2((2, 2), (2, 2)), u("tensordot"))
fun("tensordot", "np.tensordot axes", prod2((2, 3), (3, 2)), lambda m, x, y: m.tensordot(x, y, axes=1))
fun("convolve", "np.convolve same", prod2((4,), (3,)), lambda m, x, y: m.convolve(x, y, mode="same"))
fun("einsum", "np.einsum ij,jk", prod2((2, 2), (2, 2)), lambda m, x, y: m.einsum("ij,jk->ik", x, y))
fun("einsum", "np.einsum three", lambda g: [g.q("x", (2,)), g.q("x", (2,)), g.q("x", (2,))],
    lambda m, x, y, z: m.einsum("i,i,i->i", x, y, z))
fun("einsum_trace", "np.einsum ii", one((2, 2)), lambda m, x: m.einsum("ii", x))
fun("trapezoid", "np.trapezoid x", lambda g: [g.q("x"), g.q("y")], lambda m, y, x: m.trapezoid(y, x))
fun("trapezoid", "np.trapezoid dx", lambda g: [g.q("x"), g.q("y", ())], lambda m, y, x: m.trapezoid(y, dx=x))
fun("trapezoid", "np.trapezoid", one(), lambda m, y: m.trapezoid(y))
# linear algebra
SQ = [[2.0, 1.0], [1.0, 3.0]]


def sq(group="x"):
    return lambda g: [g.q(group, (2, 2), vals=[g.rng.randint(4, 8), g.rng.randint(1, 3), g.rng.randint(1, 3), g.rng.randint(4, 8)])]


def sym(g):
    k = g.rng.randint(1, 3)
    return [g.q("x", (2, 2), vals=[g.rng.randint(4, 8), k, k, g.rng.randint(9, 12)])]


fun("inv", "np.linalg.inv", sq(), lambda m, x: m.linalg.inv(x), p=lambda x: (-1, 1))
fun("inv", "np.linalg.tensorinv", lambda g: [g.q("x", (2, 2, 1, 4), vals=[5, 1, 2, 1, 1, 6, 1, 2, 2, 1, 7, 1, 1, 2, 1, 8])],
    lambda m, x: m.linalg.tensorinv(x), p=lambda x: (-1, 1))
fun("pinv", "np.linalg.pinv", sq(), lambda m, x: m.linalg.pinv(x), p=lambda x: (-1, 1))
fun("det", "np.linalg.det", sq(), lambda m, x: m.linalg.det(x), p=lambda x: (2, 1))
fun("det", "np.linalg.det 3x3", lambda g: [g.q("x", (3, 3), vals=[5, 1, 2, 1, 6, 1, 1, 2, 7])], lambda m, x: m.linalg.det(x), p=lambda x: (3, 1))
fun("det", "np.linalg.det stack", lambda g: [g.q("x", (3, 2, 2), vals=[5, 1, 2, 4, 6, 1, 1, 2, 7, 1, 1, 2])],
    lambda m, x: m.linalg.det(x), p=lambda x: (2, 1))
fun("norm", "np.linalg.norm", one((3,)), lambda m, x: m.linalg.norm(x))
fun("norm", "np.linalg.norm axis", one((2, 3)), lambda m, x: m.linalg.norm(x, axis=1))
fun("norm", "np.linalg.norm ord=1", one((3,)), lambda m, x: m.linalg.norm(x, 1))
fun("norm", "np.linalg.norm ord=inf", one((3,)), lambda m, x: m.linalg.norm(x, np.inf))
fun("solve", "np.linalg.solve", lambda g: sq()(g) + [g.q("y", (2,))], lambda m, a, b: m.linalg.solve(a, b))
fun("solve", "np.linalg.tensorsolve", lambda g: sq()(g) + [g.q("y", (2,))], lambda m, a, b: m.linalg.tensorsolve(a, b))
fun("lstsq", "np.linalg.lstsq", lambda g: [g.q("x", (3, 2), vals=[5, 1, 2, 4, 6, 1]), g.q("y", (3,))],
    lambda m, a, b: m.linalg.lstsq(a, b, rcond=None))
fun("eig", "np.linalg.eig", sym, lambda m, x: m.linalg.eig(x))
fun("eig", "np.linalg.eigh", sym, lambda m, x: m.linalg.eigh(x))
fun("eigvals", "np.linalg.eigvals", sym, lambda m, x: m.linalg.eigvals(x))
fun("eigvalsh", "np.linalg.eigvalsh", sym, lambda m, x: m.linalg.eigvalsh(x))
fun("svd", "np.linalg.svd", sq(), lambda m, x: m.linalg.svd(x))
fun("svdvals", "np.linalg.svd values", sq(), lambda m, x: m.linalg.svd(x, compute_uv=False))
# fourier
for nm in ("fft", "ifft", "rfft", "hfft", "ihfft", "irfft"):
    fun("fft", "np.fft." + nm, one((4,)), lambda m, x, nm=nm: getattr(m.fft, nm)(x), p=lambda x: (-1, 1))
for nm in ("fft2", "ifft2", "rfft2", "irfft2", "fftn", "ifftn", "rfftn", "irfftn"):
    fun("fft", "np.fft." + nm, one((2, 4)), lambda m, x, nm=nm: getattr(m.fft, nm)(x), p=lambda x: (-1, 1))
for nm in ("fftshift", "ifftshift"):
    fun(nm, "np.fft." + nm, one(), lambda m, x, nm=nm: getattr(m.fft, nm)(x))
# reductions
for nm in ("sum", "max", "min", "mean", "std", "median", "ptp", "cumsum", "nansum", "nanmax", "nanmin", "nanmean", "nanstd", "nanmedian"):
    fun(nm, "np." + nm, one((2, 3)), u(nm))
    if nm not in ("cumsum",):
        fun(nm, f"np.{nm} axis=0 keepdims", one((2, 3)), lambda m, x, nm=nm: getattr(m, nm)(x, axis=0, keepdims=True))
    fun(nm, f"np.{nm} axis=1", one((2, 3)), lambda m, x, nm=nm: getattr(m, nm)(x, axis=1))
fun("var", "np.var", one((2, 3)), u("var"), p=lambda x: (2, 1))
fun("var", "np.var axis", one((2, 3)), lambda m, x: m.var(x, axis=0), p=lambda x: (2, 1))
fun("nanvar", "np.nanvar", one((2, 3)), u("nanvar"), p=lambda x: (2, 1))
fun("prod", "np.prod", one((2, 3)), u("prod"), p=lambda x: (6, 1))
fun("prod", "np.prod axis=0", one((2, 3)), lambda m, x: m.prod(x, axis=0), p=lambda x: (2, 1))
fun("prod", "np.prod axis=-1", one((2, 3)), lambda m, x: m.prod(x, axis=-1), p=lambda x: (3, 1))
fun("prod", "np.prod axes", one((2, 3)), lambda m, x: m.prod(x, axis=(0, 1)), p=lambda x: (6, 1))
fun("prod", "np.prod keepdims", one((2, 3)), lambda m, x: m.prod(x, axis=1, keepdims=True), p=lambda x: (3, 1))
fun("average", "np.average", one((2, 3)), u("average"))
fun("average", "np.average axis", one((2, 3)), lambda m, x: m.average(x, axis=0))
fun("average", "np.average weights", lambda g: [g.q("x", (3,)), g.q("y", (3,), sign=False, plain=True)], lambda m, x, w: m.average(x, weights=w), epochs=False)
fun("average_weights", "np.average returned", lambda g: [g.q("x", (3,)), g.q("y", (3,), sign=False)],
    lambda m, x, w: m.average(x, weights=w, returned=True), epochs=False)
fun("average_weights", "np.average returned axis", lambda g: [g.q("x", (2, 3)), g.q("y", (3,), sign=False)],
    lambda m, x, w: m.average(x, axis=1, weights=w, returned=True), epochs=False)
for nm, k in (("percentile", 30), ("quantile", 0.3), ("nanpercentile", 50), ("nanquantile", 0.75)):
    fun(nm, "np." + nm, one((2, 3)), lambda m, x, nm=nm, k=k: getattr(m, nm)(x, k))
    fun(nm, f"np.{nm} axis", one((2, 3)), lambda m, x, nm=nm, k=k: getattr(m, nm)(x, [k, k / 2], axis=1))
fun("trace", "np.trace", one((2, 2)), u("trace"))
for nm in ("diff", "ediff1d", "gradient"):
    fun(nm, "np." + nm, one(), u(nm))
fun("diff", "np.diff n=2", one(), lambda m, x: m.diff(x, n=2))
# edits of the layout
for nm, f in (("tril", u("tril")), ("triu", u("triu")), ("diagonal", u("diagonal")), ("rot90", u("rot90"))):
    fun(nm, "np." + nm, one((3, 3)), f)
for nm, f in (("around", lambda m, x: m.around(x, 0)), ("take", lambda m, x: m.take(x, [0, 2, 2])), ("repeat", lambda m, x: m.repeat(x, 2)),
              ("roll", lambda m, x: m.roll(x, 1)), ("flip", lambda m, x: m.flip(x)), ("delete", lambda m, x: m.delete(x, 1)),
              ("tile", lambda m, x: m.tile(x, 2)), ("reshape", lambda m, x: m.reshape(x, (2, 2))), ("squeeze", lambda m, x: m.squeeze(x)),
              ("expand_dims", lambda m, x: m.expand_dims(x, 0)), ("atleast", lambda m, x: m.atleast_2d(x)),
              ("compress", lambda m, x: m.compress([1, 0, 1, 1], x)),
              ("extract", lambda m, x: m.extract(np.array([1, 0, 1, 1]), x)), ("resize", lambda m, x: m.resize(x, (6,))),
              ("array_split", lambda m, x: list(m.array_split(x, 3))), ("real", lambda m, x: m.real(x)), ("nan_to_num", lambda m, x: m.nan_to_num(x)),
              ("pad", lambda m, x: m.pad(x, 1, mode="edge")), ("pad", lambda m, x: m.pad(x, (1, 2))), ("pad", lambda m, x: m.pad(x, 2, mode="mean"))):
    if nm == "around":
        fun(nm, "np.around e=0", lambda g: [g.q("x")], f, scaled=False, dims="0")
    else:
        fun(nm, f"np.{nm} {len(FUNCS)}", one((4,)), f)
fun("moveaxis", "np.moveaxis", one((2, 3)), lambda m, x: m.moveaxis(x, 0, 1))
fun("swapaxes", "np.swapaxes", one((2, 3)), lambda m, x: m.swapaxes(x, 0, 1))
fun("pad_with", "np.pad constant", lambda g: [g.q("x"), g.q("x", ())], lambda m, x, y: m.pad(x, 1, constant_values=y))
fun("meshgrid", "np.meshgrid", lambda g: [g.q("x", (2,)), g.q("y", (3,))], lambda m, x, y: m.meshgrid(x, y), epochs=False)
fun("meshgrid", "np.meshgrid ij", lambda g: [g.q("x", (2,)), g.q("y", (3,))], lambda m, x, y: m.meshgrid(x, y, indexing="ij"), epochs=False)
# choice
fun("where", "np.where", two((4,)), lambda m, x, y: m.where(np.array([1, 0, 1, 0], dtype=bool), x, y))
fun("where", "np.where scalar", two((4,), ()), lambda m, x, y: m.where(np.array([1, 0, 1, 0], dtype=bool), x, y))
fun("where1", "np.where one", one(), lambda m, x: m.where(x))
fun("select", "np.select", two((4,)), lambda m, x, y: m.select([np.array([1, 0, 1, 0], dtype=bool), np.array([0, 1, 0, 1], dtype=bool)], [x, y]), dims="0")
fun("select", "np.select default", lambda g: [g.q("x", (4,)), g.q("x", (4,)), g.q("x", ())],
    lambda m, x, y, z: m.select([np.array([1, 0, 0, 0], dtype=bool), np.array([0, 1, 0, 0], dtype=bool)], [x, y], default=z))
fun("choose", "np.choose", two((3,)), lambda m, x, y: m.choose(np.array([0, 1, 0]), [x, y]))
fun("insert", "np.insert", lambda g: [g.q("x"), g.q("x", ())], lambda m, x, y: m.insert(x, 1, y))
fun("insert", "np.insert several", lambda g: [g.q("x"), g.q("x", (2,))], lambda m, x, y: m.insert(x, [1, 2], y))
fun("clip", "np.clip", lambda g: [g.q("x"), g.q("x", (), sign=False), g.q("x", (), sign=False)], lambda m, x, lo, hi: m.clip(x, -lo, hi))
# ranges
fun("linspace", "np.linspace", two((), ()), lambda m, x, y: m.linspace(x, y, 5))
fun("linspace_step", "np.linspace retstep", two((), ()), lambda m, x, y: m.linspace(x, y, 5, retstep=True))
fun("geomspace", "np.geomspace", lambda g: [g.q("x", (), sign=False), g.q("x", (), sign=False)], lambda m, x, y: m.geomspace(x, y, 5))
fun("unwrap", "np.unwrap", lambda g: [g.q("x"), g.q("x", (), sign=False)], lambda m, x, y: m.unwrap(x, period=y))
fun("interp", "np.interp", lambda g: [g.q("x"), g.q("x", vals=[1, 3, 4, 9]), g.q("y")], lambda m, x, xp, fp: m.interp(x, xp, fp))
fun("interp", "np.interp left", lambda g: [g.q("x"), g.q("x", vals=[1, 3, 4, 9]), g.q("y"), g.q("y", ())],
    lambda m, x, xp, fp, l: m.interp(x, xp, fp, left=l, right=l))
fun("interp_period", "np.interp period", lambda g: [g.q("x"), g.q("x", vals=[1, 3, 4, 9]), g.q("y"), g.q("x", (), vals=[16])],
    lambda m, x, xp, fp, pr: m.interp(x, xp, fp, period=pr))
fun("sinc", "np.sinc", one(), u("sinc"), dims="0", scaled=False)
# targets
fun("copyto", "np.copyto", two(), lambda m, x, y: m.copyto(x, y), target=0)
fun("copyto", "np.copyto where", two(), lambda m, x, y: m.copyto(x, y, where=np.array([1, 0, 1, 0], dtype=bool)), target=0)
fun("fill_diagonal", "np.fill_diagonal", two((2, 2), ()), lambda m, x, y: m.fill_diagonal(x, y), target=0)
fun("place", "np.place", two((4,), (2,)), lambda m, x, y: m.place(x, np.array([1, 0, 1, 0], dtype=bool), y), target=0)
fun("put", "np.put", two((4,), (2,)), lambda m, x, y: m.put(x, [0, 2], y), target=0)
fun("put_along_axis", "np.put_along_axis", two((4,), (2,)), lambda m, x, y: m.put_along_axis(x, np.array([0, 2]), y, 0), target=0)
fun("putmask", "np.putmask", two((4,)), lambda m, x, y: m.putmask(x, np.array([1, 0, 1, 0], dtype=bool), y), target=0)
for nm in ("sum", "mean", "max", "cumsum", "median"):
    fun("sum_out", f"np.{nm} out", lambda g, nm=nm: [g.q("x", (2, 3)), g.q("x", (2, 3) if nm == "cumsum" else (3,), dev=False)],
        lambda m, x, z, nm=nm: getattr(m, nm)(x, axis=0, out=z), target=1)
fun("add_out", "np.concatenate out", lambda g: [g.q("x", (2,)), g.q("x", (2,)), g.q("x", (4,), dev=False)],
    lambda m, x, y, z: m.concatenate([x, y], out=z), target=2)
fun("mul_out", "np.dot out", lambda g: [g.q("x", (2, 2)), g.q("y", (2, 2)), g.q("x", (2, 2), dev=False)], lambda m, x, y, z: m.dot(x, y, out=z), target=2)
# histograms
D = [1, 2, 3, 4, 6, 9]


def limits(x, b):
    """unyt itself takes the limits to be plain numbers in the units of x."""
    return b if hasattr(b, "comoving") else b.to_value(x.units)


fun("histogram_bin_edges", "np.histogram_bin_edges", lambda g: [g.q("x", (6,), vals=D)], lambda m, x: m.histogram_bin_edges(x, 4))
fun("histogram_bin_edges", "np.histogram_bin_edges edges", lambda g: [g.q("x", (6,), vals=D), g.q("x", (3,), vals=[1, 4, 10])],
    lambda m, x, b: m.histogram_bin_edges(x, limits(x, b)))
fun("histogram_bin_edges", "np.histogram_bin_edges range", lambda g: [g.q("x", (6,), vals=D), g.q("x", (2,), vals=[1, 4])],
    lambda m, x, b: m.histogram_bin_edges(x, 4, range=limits(x, b)))
for dens in (None, True):
    sx = "_density" if dens else ""
    fun("histogram1" + sx, f"np.histogram density={dens}", lambda g: [g.q("x", (6,), vals=D)], lambda m, x, dens=dens: m.histogram(x, 4, density=dens))
    fun("histogram1" + sx, f"np.histogram edges density={dens}", lambda g: [g.q("x", (6,), vals=D), g.q("x", (3,), vals=[1, 4, 10])],
        lambda m, x, b, dens=dens: m.histogram(x, b, density=dens))
    fun("histogram1" + sx, f"np.histogram range density={dens}", lambda g: [g.q("x", (6,), vals=D), g.q("x", (2,), vals=[1, 8])],
        lambda m, x, b, dens=dens: m.histogram(x, 3, range=b, density=dens))
    fun("histogram" + sx, f"np.histogram weights density={dens}", lambda g: [g.q("x", (6,), vals=D), g.q("y", (6,), sign=False)],
        lambda m, x, w, dens=dens: m.histogram(x, 4, weights=w, density=dens), epochs=False)
    fun("histogram" + sx, f"np.histogram weights edges density={dens}",
        lambda g: [g.q("x", (6,), vals=D), g.q("y", (6,), sign=False), g.q("x", (3,), vals=[1, 4, 10])],
        lambda m, x, w, b, dens=dens: m.histogram(x, b, weights=w, density=dens), epochs=False)
    for form in ("2d", "dd"):
        def call(m, x, y, w=None, bx=None, by=None, dens=dens, form=form):
            bins = 3 if bx is None else [bx, by]
            if form == "2d":
                return list(m.histogram2d(x, y, bins=bins, weights=w, density=dens))
            h, e = m.histogramdd([x, y], bins=bins, weights=w, density=dens)
            return [h] + list(e)
        fun("histogram2d1" + sx, f"np.histogram{form} density={dens}", lambda g: [g.q("x", (6,), vals=D), g.q("y", (6,), vals=D[::-1])],
            lambda m, x, y, call=call: call(m, x, y), epochs=False)
        fun("histogram2d" + sx, f"np.histogram{form} weights density={dens}",
            lambda g: [g.q("x", (6,), vals=D), g.q("y", (6,), vals=D[::-1]), g.q("z", (6,), sign=False)],
            lambda m, x, y, w, call=call: call(m, x, y, w), epochs=False)
        fun("histogram2d" + sx, f"np.histogram{form} weights edges density={dens}",
            lambda g: [g.q("x", (6,), vals=D), g.q("y", (6,), vals=D[::-1]), g.q("z", (6,), sign=False), g.q("x", (3,), vals=[1, 4, 10]),
                       g.q("y", (4,), vals=[1, 2, 5, 10])],
            lambda m, x, y, w, bx, by, call=call: call(m, x, y, w, bx, by), epochs=False)
fun("append", "np.ediff1d to_end", lambda g: [g.q("x"), g.q("x", (1,))], lambda m, x, y: m.ediff1d(x, to_end=y))
fun("multiply", "np.linalg.multi_dot", prod2((2, 2), (2, 2)), lambda m, x, y: m.linalg.multi_dot([x, y]))
fun("matrix_power", "np.linalg.matrix_power", one((2, 2)), lambda m, x: m.linalg.matrix_power(x, 3), p=lambda x: (3, 1))
fun("nanprod", "np.nanprod", one((2, 2)), lambda m, x: m.nanprod(x), p=lambda x: (4, 1))
for nm, f in (("flip", lambda m, x: m.flipud(x)), ("flip", lambda m, x: m.fliplr(x)), ("array_split", lambda m, x: list(m.split(x, 2))),
              ("array_split", lambda m, x: list(m.hsplit(x, 2))), ("take", lambda m, x: m.take_along_axis(x, np.array([[0], [1]]), 1)),
              ("reshape", lambda m, x: m.ravel(x)), ("reshape", lambda m, x: m.transpose(x)), ("sort", lambda m, x: m.roll(x, (1, 1), axis=(0, 1)))):
    fun(nm, f"np.{nm} two-dimensional {len(FUNCS)}", one((2, 2)), f)
for nm in ("array2string", "array_repr", "array_str"):
    fun("text", "np." + nm, one(), u(nm))
fun("copy", "np.copy", one(), lambda m, x: m.copy(x, subok=True))
