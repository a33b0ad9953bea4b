"""C04: operations never change their inputs."""
import copy
import operator
import pickle
import sys
import warnings

import h5py
import numpy as np
import unyt

from vt import common, snap, tlc
from vt.checks import calc, calcops
from vt.checks.R02 import validate
from vt.common import fan


def att(x):
    """Everything observable of an operand but its elements."""
    if isinstance(x, (list, tuple)):
        return [att(y) for y in x]
    if isinstance(x, dict):
        return {k: att(y) for k, y in x.items()}
    if isinstance(x, np.ndarray):
        return (type(x).__name__, str(x.dtype), x.shape, str(getattr(x, "units", "")), repr(getattr(x, "cosmo_factor", "")),
                repr(getattr(x, "comoving", "")), repr(getattr(x, "valid_transform", "")), repr(getattr(x, "compression", "")),
                repr(getattr(x, "name", "")))
    return type(x).__name__


def val(x):
    if isinstance(x, (list, tuple)):
        return [val(y) for y in x]
    if isinstance(x, dict):
        return {k: val(y) for k, y in x.items()}
    if isinstance(x, np.ndarray):
        return np.asarray(x).view(np.ndarray).tobytes()
    return repr(x)


class Program:
    """Registers, and what every call did to them."""

    def __init__(self, regs):
        self.r = list(regs)
        self.ev = dict(regs=len(self.r), ops=[])

    def do(self, label, kind, args, fn, d=0, share=(), poke=False, same=False):
        """fn(*values of args); the result goes to register d of a `make`.  Registers count from 1."""
        before = [(val(x), att(x)) for x in self.r]
        err, res = "", None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                try:
                    res = fn(*[self.r[i - 1] for i in args])
                except Exception as e:
                    err = repr(e)[:160]
        is_ = next((i for i in args if same and res is self.r[i - 1]), 0)
        v = [i + 1 for i, x in enumerate(self.r) if val(x) != before[i][0]]
        a = [i + 1 for i, x in enumerate(self.r) if att(x) != before[i][1]]
        ok = not err
        if kind == "make":
            if d and ok:
                self.r[d - 1] = res
            else:
                kind, d = "read", 0
        self.ev["ops"].append(dict(op=label, kind=kind, args=list(args), d=d, val=v, att=a, poke=poke, err=err,
                                   **{"from": list(share) if kind == "make" else [], "is": is_}))
        return res, ok

    def poke(self, i):
        """Write to the memory of register i."""
        x = self.r[i - 1]
        if isinstance(x, np.ndarray) and x.size and x.flags.writeable and x.dtype.kind in "fiuc":
            def fn(x):
                y = np.asarray(x).view(np.ndarray)
                y[...] = 77 if y.ravel()[0] != 77 else 78
            self.do("poke", "write", [i], fn, i, poke=True)


# ------------------------------------------------------------ one call, then writing to its results
def plain(x):
    return np.array(np.asarray(x).view(np.ndarray)) if isinstance(x, np.ndarray) and np.shape(x) else x


def shares(call, pairs):
    """Which operands the results of numpy itself share memory with (None: unknown)."""
    for conv in (lambda p: p.o.copy() if isinstance(p.o, np.ndarray) else p.o, lambda p: plain(p.o)):
        xs = [conv(p) for p in pairs]
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                res = calc.outlist(call.fn(np, *xs), None)
        except Exception:
            continue
        return [[i + 1 for i, x in enumerate(xs) if isinstance(x, np.ndarray) and isinstance(r, np.ndarray) and np.shares_memory(x, r)]
                for r in res]
    return None


def single(sw, rng, call):
    g = calc.Gen(sw, rng, **call.gen)
    pairs = call.args(g)
    xs = [p.x for p in pairs]
    P = Program(xs)
    t = 0 if call.target is None else call.target + 1
    sh = shares(call, pairs)
    n = len(xs)
    res, ok = P.do(call.label, "write" if t else "read", list(range(1, n + 1)), lambda *a: call.fn(np, *a), t)
    if ok and not t and sh is not None:
        res = calc.outlist(res, None)
        if len(res) == len(sh) and rng.random() < 0.9:
            base = len(P.r)
            P.r += res
            P.ev["regs"] = len(P.r)
            for k, r in enumerate(res):
                P.ev["ops"].append(dict(op=call.label, kind="make", args=[], d=base + k + 1, val=[], att=[], poke=False, err="",
                                        **{"from": sh[k], "is": 0}))
            # several results of one call may share memory with each other
            for k in range(len(res)):
                o = P.ev["ops"][1 + k]
                o["from"] = o["from"] + [base + j + 1 for j in range(k)]
            for k in range(len(res)):
                P.poke(base + k + 1)
    return P.ev


# ------------------------------------------------------------ programs
def other_unit(x):
    return {"kpc": "Mpc", "Mpc": "kpc", "Msun": "kg"}.get(str(x.units), str(x.units))


MAKE1 = [
    ("to_comoving", lambda x: x.to_comoving()), ("to_physical", lambda x: x.to_physical()),
    ("to(comoving=True)", lambda x: x.to(comoving=True)), ("to(comoving=False)", lambda x: x.to(comoving=False)),
    ("to(same)", lambda x: x.to(x.units)), ("to(unit)", lambda x: x.to(other_unit(x))),
    ("to(unit, comoving)", lambda x: x.to(other_unit(x), comoving=True)), ("to(same, frame)", lambda x: x.to(x.units, comoving=x.comoving)),
    ("in_units", lambda x: x.in_units(other_unit(x))), ("in_units same", lambda x: x.in_units(x.units)),
    ("in_base", lambda x: x.in_base()), ("in_cgs", lambda x: x.in_cgs()), ("in_mks", lambda x: x.in_mks()),
    ("copy", lambda x: x.copy()), ("copy.copy", copy.copy), ("deepcopy", copy.deepcopy),
    ("pickle", lambda x: pickle.loads(pickle.dumps(x))), ("negative", lambda x: -x), ("abs", abs), ("x * 1", lambda x: x * 1.0),
    ("1 * x", lambda x: 1.0 * x), ("x * unit", lambda x: x * unyt.dimensionless), ("x / 1", lambda x: x / 1), ("x + zeros_like", lambda x: x + np.zeros_like(x)),
    ("square", lambda x: x ** 2), ("sqrt", lambda x: np.sqrt(abs(x))), ("astype", lambda x: x.astype("f4")), ("x ** 1", lambda x: x ** 1),
    ("sort", np.sort), ("where", lambda x: np.where(np.ones(x.shape, dtype=bool), x, x)), ("concatenate", lambda x: np.concatenate([x])[:3]),
    ("mask", lambda x: x[np.ones(len(x), dtype=bool)]), ("index", lambda x: x[[0, 1, 2]]), ("cumsum", np.cumsum),
    ("cosmo_array([x])", lambda x: type(x)([x])[0]), ("take", lambda x: x.take([0, 1, 2])), ("clip", lambda x: np.clip(x, x.min(), x.max())),
    ("round", lambda x: np.around(x, 1)), ("roll", lambda x: np.roll(x, 1)), ("nan_to_num", lambda x: np.nan_to_num(x)),
    ("copy_like", lambda x: type(x)(x.copy(), comoving=x.comoving, cosmo_factor=x.cosmo_factor)), ("full_like", lambda x: np.full_like(x, x[0])),
]
VIEW1 = [
    ("[...]", lambda x: x[...]), ("[:]", lambda x: x[:]), ("view", lambda x: x.view()), ("reverse", lambda x: x[::-1]), ("reshape", lambda x: x.reshape(3)),
    ("ravel", lambda x: x.ravel()), ("T", lambda x: x.T), ("flip", np.flip), ("real", np.real), ("squeeze", np.squeeze),
    ("transpose", lambda x: x.transpose()), ("cosmo_array(x)", lambda x: type(x)(x)), ("asanyarray", np.asanyarray), ("atleast_1d", np.atleast_1d),
    ("astype copy=False", lambda x: x.astype(x.dtype, copy=False)), ("swapaxes", lambda x: x.reshape(3, 1).swapaxes(0, 1)[0]),
    ("split", lambda x: np.split(x, 1)[0]), ("expand", lambda x: np.expand_dims(x, 0)[0]),
]
BINARY = [
    ("+", operator.add), ("-", operator.sub), ("*", operator.mul), ("/", operator.truediv), ("maximum", np.maximum), ("hypot", np.hypot),
    ("where", lambda x, y: np.where(np.array([True, False, True]), x, y)), ("arctan2", lambda x, y: np.arctan2(x, y) * x),
    ("append", lambda x, y: np.append(x, y)[:3]), ("vstack", lambda x, y: np.vstack([x, y])[0]), ("cosmo_array([x, y])", lambda x, y: type(x)([x, y])[0]),
    ("interp", lambda x, y: np.interp(x, np.sort(x), y)), ("clip", lambda x, y: np.clip(x, y.min(), y.max())), ("cross", lambda x, y: np.cross(x, y)),
    ("add.outer", lambda x, y: np.add.outer(x, y)[0]), ("linspace", lambda x, y: np.linspace(x[0], y[0], 3)), ("remainder", np.remainder),
    ("select", lambda x, y: np.select([np.array([True, False, True])], [x], default=y[0])),
]
READ2 = [
    ("<", operator.lt), ("==", operator.eq), ("allclose", np.allclose), ("array_equal", np.array_equal), ("isin", np.isin), ("dot", np.dot),
    ("searchsorted", lambda x, y: np.searchsorted(np.sort(x), y)), ("histogram", lambda x, y: np.histogram(x, bins=np.sort(y))),
    ("digitize", lambda x, y: np.digitize(x, np.sort(y))), ("sum", lambda x, y: x.sum()), ("repr", lambda x, y: repr(x) + str(y)),
    ("to_value", lambda x, y: x.to_value(other_unit(x))), ("to_physical_value", lambda x, y: x.to_physical_value(other_unit(x))),
    ("to_comoving_value", lambda x, y: x.to_comoving_value(other_unit(x))), ("compatible", lambda x, y: (x.compatible_with_comoving(), x.compatible_with_physical())),
    ("outer", np.outer), ("min", lambda x, y: x.min()), ("std", lambda x, y: np.std(x)), ("average", lambda x, y: np.average(x, weights=abs(y))),
    ("in_units wrong", lambda x, y: x.in_units("s")), ("list", lambda x, y: list(x)), ("tolist", lambda x, y: x.tolist()), ("isclose", np.isclose),
    ("meshgrid", lambda x, y: np.meshgrid(x, y)), ("intersect1d", np.intersect1d), ("histogram2d", lambda x, y: np.histogram2d(x, y, bins=2)),
]
REFUSED = [
    ("x + y**2", lambda x, y: x + y ** 2), ("x + seconds", lambda x, y: x + unyt.unyt_array([1.0, 2.0, 3.0], "s")), ("x < y**2", lambda x, y: x < y ** 2),
    ("to wrong unit", lambda x, y: x.to("Msun" if str(x.units) != "Msun" else "s")), ("x + short", lambda x, y: x + y[:2]), ("dot short", lambda x, y: np.dot(x, y[:2])),
    ("exp", lambda x, y: np.exp(x)), ("concatenate wrong", lambda x, y: np.concatenate([x, y ** 2])), ("clip wrong", lambda x, y: np.clip(x, y[0] ** 2, y[1] ** 2)),
    ("interp wrong", lambda x, y: np.interp(x, y ** 2, x)), ("array wrong", lambda x, y: type(x)([x, y ** 2])), ("append wrong", lambda x, y: np.append(x, y ** 2)),
]
INPLACE = [
    ("+=", operator.iadd), ("-=", operator.isub), ("*=", lambda x, y: operator.imul(x, (y / y[0]))), ("/=", lambda x, y: operator.itruediv(x, y / y[0])),
    ("x[:] = y", lambda x, y: operator.setitem(x, slice(None), y)), ("x[0] = y[1]", lambda x, y: operator.setitem(x, 0, y[1])), ("copyto", np.copyto),
    ("put", lambda x, y: np.put(x, [0, 2], y[:2])), ("putmask", lambda x, y: np.putmask(x, np.array([True, False, True]), y)), ("+= wrong", lambda x, y: operator.iadd(x, y ** 2)),
    ("place", lambda x, y: np.place(x, np.array([True, False, True]), y[:2])), ("x[1:] = y[:2]", lambda x, y: operator.setitem(x, slice(1, None), y[:2])),
    ("%=", operator.imod), ("x *= 2", lambda x, y: operator.imul(x, 2.0)),
]
OUT = [
    ("add out", lambda x, y, z: np.add(x, y, out=z)), ("maximum out", lambda x, y, z: np.maximum(x, y, out=z)), ("multiply out", lambda x, y, z: np.multiply(x, y, out=z)),
    ("cumsum out", lambda x, y, z: np.cumsum(x, out=z)), ("concatenate out", lambda x, y, z: np.concatenate([x[:2], y[:1]], out=z)),
    ("sqrt out", lambda x, y, z: np.sqrt(abs(x), out=z)), ("clip out", lambda x, y, z: np.clip(x, y.min(), y.max(), out=z)), ("take out", lambda x, y, z: np.take(x, [0, 1, 2], out=z)),
    ("subtract where", lambda x, y, z: np.subtract(x, y, out=z, where=np.array([True, False, True]))), ("add out wrong", lambda x, y, z: np.add(x, y ** 2, out=z)),
]
INFRAME = [
    ("convert_to_comoving", lambda x: x.convert_to_comoving()), ("convert_to_physical", lambda x: x.convert_to_physical()),
    ("convert_to_units", lambda x: x.convert_to_units(other_unit(x))), ("convert_to_base", lambda x: x.convert_to_base()), ("convert_to_cgs", lambda x: x.convert_to_cgs()),
    ("convert_to_mks", lambda x: x.convert_to_mks()), ("sort", lambda x: x.sort()), ("fill", lambda x: x.fill(x[0])), ("convert_to_units frame", lambda x: x.convert_to_units(other_unit(x), comoving=True)),
]
TABLE = dict(to=MAKE1, view=VIEW1, binary=BINARY, inplace=INPLACE, out=OUT, inframe=INFRAME, read=READ2, refused=REFUSED)


def _same(f):
    x = np.array([1.0, 2.0, 4.0])
    try:
        return f(x) is x
    except Exception:
        return False


SAME = {k for k, f in VIEW1 if _same(f)}  # numpy returns the array itself


def start(sw, rng, frames):
    a = rng.choice([0.5, 0.25, 1.0])
    e = rng.choice([1, 1, 1, -2, 0])
    u = rng.choice(["kpc", "kpc", "Mpc"])
    mixed = rng.random() < 0.3
    out = []
    for f in frames:
        vt = f == "c" or rng.random() < 0.85
        out.append(sw.cosmo_array([rng.randint(1, 9) * 0.5 for _ in range(3)], rng.choice(["kpc", "Mpc"]) if mixed else u, comoving=f == "c", scale_factor=a,
                                  scale_exponent=e, valid_transform=vt, compression=rng.choice([None, "DScale6"])))
    return out


def usable(x):
    return hasattr(x, "comoving") and np.shape(x) == (3,) and x.dtype.kind == "f" and x.flags.writeable


def replay(sw, rng, hist):
    P = Program(start(sw, rng, hist[0]["fr"]))
    for k in hist[1:]:
        label, fn = rng.choice(TABLE[k["op"]])
        i, j, d = k["i"], k["j"], k["d"]
        if k["op"] in ("to", "binary", "view"):
            args = [i] if k["op"] != "binary" else [i, j]
            if k["op"] != "binary" and rng.random() < 0.05:
                args = [j]
            res, ok = P.do(label, "make", args, lambda *a: (lambda r: r if usable(r) else r.copy() if usable(r.copy()) else 1 / 0)(fn(*a)), d,
                           share=args if k["op"] == "view" else (), same=k["op"] == "view" and label in SAME)
        elif k["op"] == "inplace":
            P.do(label, "write", [i, j], fn, i)
        elif k["op"] == "out":
            P.do(label, "write", [i, j, d], fn, d)
        elif k["op"] == "inframe":
            P.do(label, "write", [i], fn, i)
        else:
            P.do(label, "read", [i, j], fn)
        if not all(np.isfinite(np.asarray(x)).all() and np.abs(np.asarray(x)).max() < 1e150 for x in P.r):
            break
    return P.ev


def walk(rng, n, depth):
    """A longer path than the exhaustive ones."""
    hist = [dict(fr=[rng.choice("cp") for _ in range(n)])]
    for _ in range(depth):
        op = rng.choice(list(TABLE))
        i, j, d = (rng.randint(1, n) for _ in range(3))
        if op in ("to", "view") and i == d or op == "inplace" and i == j or op == "out" and d in (i, j):
            continue
        hist.append(dict(op=op, i=i, j=j, d=d))
    return hist


# ------------------------------------------------------------ data sets
class Bench:
    """A small snapshot, the arrays of a data set read from it, and the calls that are given them."""

    def __init__(self, c, sw, rng):
        self.c, self.sw, self.rng = c, sw, rng
        dims = rng.choice([(2, 2, 2), (1, 2, 2)])
        size = (4.0, 4.0, 4.0) if rng.random() < 0.6 else (4.0, 2.0, 4.0)
        cells = [(i, j, k) for i in range(dims[0]) for j in range(dims[1]) for k in range(dims[2])]
        box = [d * s for d, s in zip(dims, size)]
        parts = []
        for _ in range(rng.randint(4, 30)):
            p = [rng.randint(0, 64) / 64 * b for b in box]
            if rng.random() < 0.4:  # positions drift out of the box
                p = [x + rng.choice([0, 0, b, -b]) for x, b in zip(p, box)]
            cell = tuple(int((x % b) // s) for x, b, s in zip(p, box, size))
            parts.append((cells.index(cell), tuple(p)))
        w = snap.World(dims, size, range(len(cells)), {0: parts})
        self.box, self.world = box, w
        n = len(parts)
        seed = rng.randint(0, 2**30)
        r = np.random.default_rng(seed)
        f = {0: {"Masses": (lambda rows: r.integers(1, 9, n) * 1.0, snap.fattrs(M=1.0), None),
                 "SmoothingLengths": (lambda rows: r.integers(3, 9, n) * 0.125, snap.fattrs(L=1.0, a=1.0), None),
                 "Temperatures": (lambda rows: r.integers(1, 9, n) * 100.0, snap.fattrs(T=1.0), None),
                 "Densities": (lambda rows: r.integers(1, 9, n) * 1.0, snap.fattrs(M=1.0, L=-3.0, a=-3.0), None),
                 "Velocities": (lambda rows: r.integers(-8, 9, (n, 3)) * 1.0, snap.fattrs(L=1.0, t=-1.0), None)}}
        self.n = n
        self.path = c.path(f"b{rng.randint(0, 10**9)}.hdf5")
        snap.snapshot(self.path, w, fields=f, a=rng.choice([0.5, 0.25]))
        self.fresh()

    def fresh(self):
        sw, rng = self.sw, self.rng
        self.data = sw.load(self.path)
        g = self.data.gas
        self.fields = ["coordinates", "masses", "smoothing_lengths", "temperatures", "densities", "velocities"]
        for f in self.fields:
            x = getattr(g, f)
            if rng.random() < 0.15:
                x.convert_to_physical()
        self.regs = [getattr(g, f) for f in self.fields] + [self.data.metadata.boxsize]

    def soap(self):
        snap.soap(self.path + ".soap", self.world)
        return self.path + ".soap"

    def q(self, vals, frame=None):
        fr = self.rng.choice("ccp") if frame is None else frame
        a = self.data.metadata.a
        v = np.array(vals, dtype=float)
        return self.sw.cosmo_array(v * (1 if fr == "c" else a), "Mpc", comoving=fr == "c", scale_factor=a, scale_exponent=1)

    def region(self, cubic=False):
        r = self.rng
        if cubic:
            L = min(self.box) * r.choice([0.5, 1.0])
            return self.q([v for b in self.box for v in (lambda lo: (lo, lo + L))(r.choice([0, 0.25, -0.5]) * b)])
        n = r.choice([2, 3])
        return self.q([v for b in self.box[:n] for v in (lambda lo: (lo, lo + b * r.choice([0.5, 1.0])))(r.choice([0, 0.25, -0.5]) * b)])

    def call(self, label, fn, *extra):
        """fn is given the extra operands; the registers are those and all the arrays of the data set."""
        P = Program(list(extra) + self.regs)
        P.do(label, "read", list(range(1, len(extra) + 1)), fn)
        # the arrays of the data set are still the same objects
        g = self.data.gas
        for k, f in enumerate(self.fields):
            x = getattr(g, f)
            i = len(extra) + k + 1
            if x is not P.r[i - 1] and (val(x) != val(P.r[i - 1]) or att(x) != att(P.r[i - 1])):
                P.ev["ops"][-1]["val"].append(i)
        return P.ev


def calls(b, kind):
    """One random call on the bench."""
    sw, rng, data = b.sw, b.rng, b.data
    from swiftsimio.visualisation import power_spectrum as ps
    from swiftsimio.visualisation.projection import project_gas, project_pixel_grid
    from swiftsimio.visualisation.rotation import rotation_matrix_from_vector
    from swiftsimio.visualisation.slice import slice_gas
    from swiftsimio.visualisation.smoothing_length import generate_smoothing_lengths
    from swiftsimio.visualisation.volume_render import render_gas, visualise_render

    par = rng.random() < 0.3
    rot = rng.random() < 0.4
    kw = dict(parallel=par, periodic=not rot)
    mat = rotation_matrix_from_vector(np.array([1.0, 2.0, 3.0])) if rot else None
    cen = b.q([0.5 * x for x in b.box]) if rot else None
    pmask = np.arange(b.n) % 2 == 0 if rng.random() < 0.4 else None
    project = rng.choice(["masses", "masses", "temperatures", "densities", None])
    if kind.startswith("project"):
        backend = kind.split()[1]
        region = b.region() if rng.random() < 0.7 else None
        res = 96 if backend == "reference" else 8
        return b.call("project " + backend, lambda r, m, c, k: (project_gas(data, res, project, r, k, rotation_matrix=m, rotation_center=c, backend=backend, **kw)
                                                                  if rng.random() < 0.5 else
                                                                  project_pixel_grid(data.gas, res, project, r, k, m, c, backend=backend, **kw)), region, mat, cen, pmask)
    if kind == "slice":
        backend = rng.choice(["sph", "nearest_neighbours"])
        region = b.region() if rng.random() < 0.7 else None
        z = b.q([1.0])[0] if rng.random() < 0.6 else None
        return b.call("slice " + backend, lambda r, m, c, k, z: slice_gas(data, 8, z, project, rotation_matrix=m, rotation_center=c, region=r, backend=backend, mask=k, **kw),
                      region, mat, cen, pmask, z)
    if kind == "render":
        region = b.region(cubic=True)
        return b.call("render", lambda r, m, c, k: render_gas(data, 6, project, rotation_matrix=m, rotation_center=c, region=r, mask=k, **kw), region, mat, cen, pmask)
    if kind == "hsml":
        x = data.gas.coordinates % data.metadata.boxsize * 0.9999
        box = data.metadata.boxsize.copy()
        return b.call("generate_smoothing_lengths", lambda x, y: generate_smoothing_lengths(x, y, kernel_gamma=1.9, neighbours=4, speedup_fac=1), x, box)
    if kind == "deposit":
        return b.call("render_to_deposit", lambda: ps.render_to_deposit(data.gas, 4, rng.choice(["masses", "densities"]), folding=rng.randint(0, 2), parallel=par))
    if kind in ("power", "folded"):
        dep = {k: ps.render_to_deposit(data.gas, 4, "masses", folding=k) for k in range(2)}
        cross = {k: v * 2 for k, v in dep.items()} if rng.random() < 0.5 else None
        box = data.metadata.boxsize.copy()
        k = sw.cosmo_array(np.linspace(0.1, 20, 6), "1/Mpc", comoving=True, scale_factor=data.metadata.a, scale_exponent=-1)
        if kind == "power":
            return b.call("deposition_to_power_spectrum", lambda d, x, c, k: ps.deposition_to_power_spectrum(d, x, rng.randint(0, 1), c, k, shot_noise_norm=rng.choice([None, 8])),
                          dep[0], box, None if cross is None else cross[0], rng.choice([k, None]))
        return b.call("folded_depositions_to_power_spectrum", lambda d, x, c, k: ps.folded_depositions_to_power_spectrum(
            d, x, 4, c, wavenumber_range=(k[0], k[-1]), log_wavenumber_bins=rng.random() < 0.5, minimal_sample_modes=rng.choice([0, 3]),
            cutoff_above_wavenumber_fraction=rng.choice([None, 0.5])), dep, box, cross, k)
    if kind in ("spatial", "bounds", "indices", "load"):
        if kind == "indices":
            m = sw.mask(b.soap(), spatial_only=False)
            idx = rng.choice([[0, 2], np.array([1, 0]), [3], np.array([3, 1, 2])])

            def fn(i):
                m.constrain_indices(i)
                return sw.load(b.path + ".soap", mask=m).input_halos.row_index

            return b.call("constrain_indices", fn, idx)
        m = sw.mask(b.path, spatial_only=kind != "bounds")
        if kind == "bounds":
            lo, hi = b.q([1.0])[0], b.q([1.0])[0]
            f = rng.choice(["masses", "temperatures", "densities"])
            x = getattr(data.gas, f)
            lo, hi = x.min(), x.max()
            if rng.random() < 0.5:
                lo, hi = lo.to_physical(), hi
            return b.call("constrain_mask", lambda l, h: m.constrain_mask("gas", f, l, h), lo, hi)
        reg = [None if rng.random() < 0.2 else rng.choice([list, lambda z: z])(b.q([0.0, s * rng.choice([0.4, 1.3])]) - s * 0.25 * 0) for s in b.box]
        if rng.random() < 0.3:
            reg = b.q([[0.1 * s, 0.6 * s] for s in b.box])
        if kind == "spatial":
            def fn(r):
                m.constrain_spatial(r, intersect=rng.random() < 0.3)
                if rng.random() < 0.5:
                    m.constrain_spatial(r, intersect=True)
                if rng.random() < 0.5:
                    m.convert_masks_to_ranges()
                if rng.random() < 0.5:
                    m.convert_masks_to_bool()
                return m.gas
            return b.call("constrain_spatial", fn, reg)
        m.constrain_spatial(reg)

        def fn(*a):
            d = sw.load(b.path, mask=m)
            return d.gas.coordinates, d.gas.masses
        ev = b.call("load with mask", fn, m.gas if isinstance(m.gas, np.ndarray) else None, m.cell_mask.get("gas") if isinstance(m.cell_mask, dict) else None)
        return ev
    if kind == "rotation":
        v = rng.choice([np.array([1.0, 2.0, 2.0]), unyt.unyt_array([3.0, 0.0, 4.0], "kpc"), b.q([0.0, 1.0, 1.0]), [1.0, 1.0, 0.0]])
        return b.call("rotation_matrix_from_vector", lambda v: rotation_matrix_from_vector(v, rng.choice("xyz")), v)
    if kind == "subset":
        from swiftsimio.subset_writer import write_subset

        only = rng.random() < 0.5
        m = sw.mask(b.path, spatial_only=only)
        m.constrain_spatial([None, b.q([0.0, b.box[1] * rng.choice([0.4, 0.8])]), None])
        if not only:
            x = data.gas.masses
            m.constrain_mask("gas", "masses", x.min(), x.max() * 0.8)
        inner = [m.gas, m.cell_mask["gas"] if isinstance(m.cell_mask, dict) else None]
        return b.call("write_subset", lambda *a: write_subset(b.path + ".sub", m), *inner)
    if kind == "construct":
        x = b.q([1.0, 2.0, 3.0])
        y = rng.choice([[x[0], x[1]], [x, x], (x[0],), x, np.asarray(x).copy(), [1.0, 2.0], unyt.unyt_array([1.0, 2.0], "kpc")])
        k2 = rng.choice([dict(), dict(comoving=True, scale_factor=0.5, scale_exponent=1), dict(units="kpc", comoving=False, scale_factor=0.5, scale_exponent=1)])
        return b.call("construct", lambda y: sw.cosmo_array(y, **k2), y)
    if kind == "colours":
        r = np.arange(27.0).reshape(3, 3, 3)
        return b.call("visualise_render", lambda r, c, w: visualise_render(r, c, w, return_type=rng.choice(["all", "lighten", "add"])), r, [2.0, 9.0], rng.choice([[1.0, 2.0], 1.0]))
    if kind == "fields":
        x = data.gas.masses
        return b.call("field arithmetic", lambda: (data.gas.masses * data.gas.temperatures, data.gas.coordinates - data.gas.coordinates[0], data.gas.velocities.T,
                                                   data.gas.masses.to("kg"), data.gas.densities.to_physical(), np.linalg.norm(data.gas.velocities, axis=1)))
    # write
    from swiftsimio import Writer
    from swiftsimio.metadata.writer.unit_systems import cosmo_units

    g = data.gas
    arrs = dict(coordinates=g.coordinates.copy(), velocities=g.velocities.copy(), masses=g.masses.copy(), smoothing_lengths=g.smoothing_lengths.copy(),
                internal_energy=sw.cosmo_array(np.ones(b.n), "km**2/s**2", comoving=True, scale_factor=data.metadata.a, scale_exponent=-2))
    for k, x in arrs.items():
        if rng.random() < 0.3 and x.valid_transform:
            x.convert_to_physical() if x.comoving else x.convert_to_comoving()
        if rng.random() < 0.2:
            x.convert_to_units({"coordinates": "kpc", "velocities": "m/s", "masses": "kg", "smoothing_lengths": "pc", "internal_energy": "m**2/s**2"}[k])
    box = data.metadata.boxsize.copy()
    if rng.random() < 0.3:
        box.convert_to_physical()

    def fn(d, box):
        w = Writer(unit_system=cosmo_units, boxsize=box, scale_factor=data.metadata.a)
        for k, x in d.items():
            setattr(w.gas, k, x)
        p = b.path + ".out"
        w.write(p)
        w.write(p)
    return b.call("write", fn, arrs, box)


KINDS = ["hsml", "power", "folded", "spatial", "bounds", "indices", "rotation", "subset", "construct", "colours", "write", "load", "fields"]
BACKENDS = ["fast", "histogram", "renormalised", "subsampled", "subsampled_extreme", "reference"]
# one process compiles one of these
HEAVY = [["project " + x] for x in BACKENDS] + [["slice"], ["render", "deposit"]]


def bench(c, sw, rng, heavy):
    b = Bench(c, sw, rng)
    out = [calls(b, rng.choice(heavy if rng.random() < 0.35 else KINDS)) for _ in range(rng.randint(4, 10))]
    import os

    for p in (b.path, b.path + ".out", b.path + ".soap", b.path + ".sub"):
        if os.path.exists(p):
            os.unlink(p)
    return out


def body(c):
    import swiftsimio as sw

    warnings.simplefilter("ignore")
    K = dict(spec="Spec", invariants=["Private"], properties=["OnlyTargets"], view="View")
    m = tlc.run("Alias", tlc.cfg_text(dict(N=3, Depth=2, Variant="code", Emit=True), action_constraints=["EmitStep"],
                                      **{k: v for k, v in K.items() if k != "view"}), workers=8)
    c.model(m, "Alias")
    c.model(tlc.run("Alias", tlc.cfg_text(dict(N=2, Depth=4 if not c.thorough else 5, Variant="code", Emit=False), **K), workers=8, timeout=1200, mem="8g"), "Alias-deep")
    for var in ("returns-same", "prepare-in-place", "convert-other", "wrap-in-place", "refuse-late", "out-replaces", "view-attributes"):
        b = tlc.run("Alias", tlc.cfg_text(dict(N=3, Depth=2, Variant=var, Emit=False), **K), workers=8, allow_violation=True)
        assert b.violated, var
        c.info.setdefault("broken_variants_refuted", []).append(f"Alias:{var}")
    recs = m.records
    assert len(recs) > 3000, len(recs)
    c.rng.shuffle(recs)
    recs = recs[:c.n(4000, 10**6)]
    def rep(c, n):
        i = int(c.tmp.rsplit("/", 1)[1].split("_")[0])
        return [replay(sw, c.rng, x) for x in recs[i::8] for _ in range(c.n(1, 6))]

    trace = fan(c, rep, 8)
    c.info["replayed"] = len(trace)

    def run(c, n):
        out = []
        i = int(c.tmp.rsplit("/", 1)[1].split("_")[0])
        for call in calcops.OPS + calcops.FUNCS:
            out += [single(sw, c.rng, call) for _ in range(c.n(2, 24))]
        for _ in range(n):
            out.append(replay(sw, c.rng, walk(c.rng, c.rng.randint(2, 4), c.rng.randint(3, 12))))
        for _ in range(c.n(30, 500)):
            out += bench(c, sw, c.rng, HEAVY[i % 8])
        return out

    trace += fan(c, run, c.n(1500, 40000))
    for t in trace:
        for o in t["ops"]:
            c.count("calls")
            c.count("refused" if o["err"] else "kind_" + o["kind"])
            if "project" in o["op"] or o["op"] in ("write", "render", "hsml"):
                c.count("accepted_" + o["op"] if not o["err"] else "refused_" + o["op"])
    validate(c, "AliasTrace", trace, keyf=lambda ev, cl: ev["ops"][ev["at"] - 1]["op"] + ":" + cl)


if __name__ == "__main__":
    sys.exit(common.main("C04", body))
