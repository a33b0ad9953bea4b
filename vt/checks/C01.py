"""C01: frame and unit conversions preserve the physical quantity."""
import copy
import pickle
import sys
import warnings

import numpy as np
import unyt

from vt import common, tlc
from vt.checks.frames import BAD, exponent, frame, physical, token
from vt.checks.R02 import validate
from vt.common import fan

UNITS = {"length": ["Mpc", "kpc", "pc", "km", "cm"], "velocity": ["km/s", "cm/s", "Mpc/Gyr"],
         "mass": ["Msun", "kg", "g"], "density": ["Msun/kpc**3", "g/cm**3"], "none": ["dimensionless"]}
N = 5
DEAD = dict(live=False, rows=[], fr="n", e=0, vt=False, comp="", u="")
VIEWS = ["slice", "reshape", "ravel", "T", "view", "squeeze", "swap"]
COPIES = ["copy", "copy2", "deepcopy", "pickle", "fancy", "flatten", "take", "repeat", "astype", "item", "mask", "method",
          "npcopy", "compress", "byteswap"]


class Run:
    def __init__(self, c, sw, rng):
        self.c, self.sw, self.rng = c, sw, rng
        self.x = [None] * N
        self.ref = [None] * N
        self.units = [None] * N
        self.ops = []
        self.a = rng.choice([1.0, 0.5, 0.25, 0.125, 0.0625])
        self.ev = dict(n=N, exc="", ops=self.ops, a=self.a)

    def obs(self):
        out = []
        for i, x in enumerate(self.x):
            if x is None:
                out.append(DEAD)
                continue
            try:
                rows = [token(v) for v in physical(x, self.ref[i]).ravel()]
            except Exception:
                rows = [BAD]
            u = [n for n in self.units[i] if x.units == unyt.Unit(n)]
            out.append(dict(live=True, rows=rows, fr=frame(x), e=exponent(x) or 0, vt=bool(x.valid_transform),
                            comp=x.compression or "", u=u[0] if u else str(x.units)))
        return out

    def add(self, op, s, d, ok=True, **k):
        r = dict(op=op, s=s + 1, d=d + 1, ok=ok, n=len(self.ops) + 1, sel=[], fr="", u="", vals=[], unity=False,
                 x=dict(rows=[], fr="n", e=0, vt=False, comp="", u=""))
        r.update(k)
        r["obs"] = self.obs()
        self.ops.append(r)

    def new(self, d, e=None, fr=None, vt=None, dims=None, shape=None):
        rng, sw = self.rng, self.sw
        dims = dims or rng.choice(list(UNITS))
        units = UNITS[dims]
        u = rng.choice(units)
        e = rng.choice([0, 4, 4, -8, 2, -12, 1]) if e is None else e
        fr = fr or rng.choice("ccppn")
        if vt is None:
            vt = fr == "c" or (fr == "p" and rng.random() < 0.7)
        shape = shape if shape is not None else rng.choice([(), (1,), (3,), (2, 3), (3, 1), (0,)])
        n = int(np.prod(shape))
        P = [rng.randint(-15, 15) * 2.0 ** rng.randint(-3, 4) for _ in range(n)]
        ref = unyt.Unit(units[0])
        k = ref.get_conversion_factor(unyt.Unit(u))[0]
        v = np.array(P).reshape(shape) * k / (self.a ** (e / 4) if fr == "c" else 1.0)
        if rng.random() < 0.3 and n and (v == np.round(v)).all() and np.abs(v).max() < 1e9:
            v = v.astype(rng.choice(["i8", "i4"]))
        elif rng.random() < 0.2 and not n or n and (v == v.astype("f4")).all() and rng.random() < 0.3:
            v = v.astype("f4")
        comp = rng.choice([None, "FMantissa9"])
        kw = dict(comoving={"c": True, "p": False, "n": None}[fr], compression=comp)
        if fr != "n":
            kw["valid_transform"] = vt
            if rng.random() < 0.5:
                kw.update(scale_factor=self.a, scale_exponent=e / 4)
            else:
                kw["cosmo_factor"] = sw.objects.cosmo_factor.create(self.a, e / 4)
        else:
            kw.update(scale_factor=self.a, scale_exponent=e / 4)
            vt = False
        how = rng.random()
        if shape == ():
            x = sw.cosmo_quantity(v.item() if how < 0.5 else v, u, **kw)
        elif how < 0.2 and n:
            x = sw.cosmo_array(v.tolist(), u, **kw)
            if np.asarray(x).dtype.kind == "i" and v.dtype.kind != "i":
                raise AssertionError
        elif how < 0.35:
            x = sw.cosmo_array(v, unyt.Unit(u), bypass_validation=True, **dict(dict(valid_transform=vt), **kw)) \
                if fr != "n" else sw.cosmo_array(v, u, **kw)
        elif how < 0.5:
            x = sw.cosmo_array(unyt.unyt_array(v, u), **kw)
        else:
            x = sw.cosmo_array(v, u, **kw)
        self.x[d], self.ref[d], self.units[d] = x, ref, units
        self.add("new", d, d, x=dict(rows=[token(p) for p in P], fr=fr, e=e, vt=bool(vt), comp=comp or "", u=u))

    def put(self, op, s, d, y, **k):
        if y is not None:
            self.x[d], self.ref[d], self.units[d] = y, self.ref[s], self.units[s]
        self.add(op, s, d, ok=y is not None, **k)

    def idx(self, s):
        x = self.x[s]
        return np.arange(x.size).reshape(x.shape)

    def copy(self, s, d, how=None, dup=False):
        x, rng, i = self.x[s], self.rng, self.idx(s)
        how = how or rng.choice(COPIES)
        if how in ("fancy", "take", "repeat", "item", "mask", "compress") and (x.ndim == 0 or x.size == 0) or \
                (how == "mask" and x.ndim == 0):
            how = "copy"
        if how == "copy":
            y, j = x.copy(), i
        elif how == "copy2":
            y, j = copy.copy(x), i
        elif how == "deepcopy":
            y, j = copy.deepcopy(x), i
        elif how == "npcopy":
            y, j = np.copy(x, subok=True), i
        elif how == "pickle":
            y, j = pickle.loads(pickle.dumps(x, protocol=rng.choice([2, 4, 5]))), i
        elif how == "fancy":
            k = [rng.randrange(x.shape[0]) for _ in range(rng.randint(1, 3))]
            y, j = x[k], i[k]
        elif how == "flatten":
            y, j = x.flatten(), i.flatten()
        elif how == "take":
            k = [rng.randrange(x.size) for _ in range(2)]
            y, j = x.take(k), i.take(k)
        elif how == "repeat" and x.ndim:
            y, j = x.repeat(2, axis=0), i.repeat(2, axis=0)
        elif how == "astype":
            y, j = x.astype("f8"), i
        elif how == "item":
            k = tuple(rng.randrange(q) for q in x.shape)
            y, j = x[k], i[k]
        elif how == "mask":
            m = np.array([rng.random() < 0.5 for _ in range(x.shape[0])])
            y, j = x[m], i[m]
        elif how == "compress":
            m = [rng.random() < 0.5 for _ in range(x.shape[0])]
            y, j = x.compress(m, axis=0), i.compress(m, axis=0)
        elif how == "byteswap":
            y, j = x.byteswap().byteswap(), i
        else:
            y, j = x[...].copy(), i
        self.put("copy", s, d, y, sel=[int(k) + 1 for k in np.ravel(j)], how=how)

    def view(self, s, d):
        x, rng, i = self.x[s], self.rng, self.idx(s)
        how = rng.choice(VIEWS)
        if how == "slice" and x.ndim:
            k = rng.choice([slice(1, None), slice(None, None, -1), slice(0, 2), Ellipsis])
            y, j = x[k], i[k]
        elif how == "reshape":
            y, j = x.reshape(-1), i.reshape(-1)
        elif how == "ravel":
            y, j = x.ravel(), i.ravel()
        elif how == "T":
            y, j = x.T, i.T
        elif how == "squeeze":
            y, j = x.squeeze(), i.squeeze()
        elif how == "swap" and x.ndim == 2:
            y, j = x.swapaxes(0, 1), i.swapaxes(0, 1)
        else:
            y, j = x.view(), i
        self.put("view", s, d, y, sel=[int(k) + 1 for k in np.ravel(j)], how=how)

    def unit(self, s, d, u=None):
        x, rng = self.x[s], self.rng
        base = u is None and (x.shape != () or isinstance(x, unyt.unyt_quantity))  # not for arrays of shape ()
        how = rng.choice(["to", "in_units", "in_cgs", "in_base", "in_mks"] if base else ["to", "in_units"])
        u = u or rng.choice(self.units[s])
        if how == "in_cgs":
            y, u = x.in_cgs(), self.label(s, x.units.get_base_equivalent("cgs"))
        elif how == "in_mks":
            y, u = x.in_base("mks"), self.label(s, x.units.get_base_equivalent("mks"))
        elif how == "in_base":
            y, u = x.in_base(), self.label(s, x.units.get_base_equivalent("mks"))
        else:
            y = getattr(x, how)(rng.choice([u, unyt.Unit(u)]))
        self.put("unit", s, d, y, sel=self.all(s), u=u)

    def all(self, s):
        return list(range(1, self.x[s].size + 1))

    def label(self, s, unit):
        n = [n for n in self.units[s] if unit == unyt.Unit(n)]
        return n[0] if n else str(unit)

    def attempt(self, f):
        try:
            return f()
        except self.sw.objects.InvalidConversionError:
            return None

    def frame(self, s, d, fr=None, u=None):
        x, rng = self.x[s], self.rng
        fr = fr or rng.choice("cp")
        u = rng.choice(self.units[s]) if u is None and rng.random() < 0.4 else ""
        args = (u,) if u else ()
        if rng.random() < 0.4:
            f = lambda: x.to(*args, comoving=fr == "c")
        elif fr == "c":
            f = lambda: x.to_comoving(*args)
        else:
            f = lambda: x.to_physical(*args)
        self.put("frame", s, d, self.attempt(f), sel=self.all(s), fr=fr, u=u)

    def construct(self, s, d, fr=None):
        x, rng = self.x[s], self.rng
        fr = rng.choice(["c", "p", "", ""]) if fr is None else fr
        kw = {"c": dict(comoving=True), "p": dict(comoving=False), "": {}}[fr]
        if fr == "" and x.comoving is not None and rng.random() < 0.3:
            kw = dict(scale_factor=self.a, scale_exponent=exponent(x) / 4)
        self.put("construct", s, d, self.attempt(lambda: self.sw.cosmo_array(x, **kw)), sel=self.all(s), fr=fr)

    def inframe(self, s, fr=None):
        x, rng = self.x[s], self.rng
        fr = fr or rng.choice("cp")
        u = rng.choice(self.units[s]) if rng.random() < 0.3 else ""
        args = (u,) if u else ()
        f = (lambda: x.convert_to_comoving(*args)) if fr == "c" else (lambda: x.convert_to_physical(*args))
        ok = self.attempt(lambda: f() or True) is not None
        self.add("inframe", s, s, ok=ok, fr=fr, u=u)

    def inunit(self, s, u=None):
        x, rng = self.x[s], self.rng
        how = rng.choice(["units", "units", "cgs", "base"]) if u is None else "units"
        u = u or rng.choice(self.units[s])
        if how == "cgs":
            u = self.label(s, x.units.get_base_equivalent("cgs"))
            x.convert_to_cgs()
        elif how == "base":
            u = self.label(s, x.units.get_base_equivalent("galactic"))
            x.convert_to_base("galactic")
        else:
            x.convert_to_units(u)
        self.add("inunit", s, s, u=u)

    def badunit(self, s):
        x, rng = self.x[s], self.rng
        bad = "K" if rng.random() < 0.7 else "Mpc*K"
        f = rng.choice([x.to, x.convert_to_units, x.to_value, x.in_units, lambda u: x.to_physical_value(u)])
        ok = True
        try:
            f(bad)
        except (unyt.exceptions.UnitConversionError, self.sw.objects.InvalidConversionError):
            ok = False
        self.add("badunit", s, -1, ok=ok)

    def value(self, s):
        x, rng = self.x[s], self.rng
        u = rng.choice(self.units[s])
        fr = rng.choice(["", "c", "p"])
        how = rng.choice(["to_value", "special", "d"])
        if how == "d":
            fr, u = "", None
            f = lambda: rng.choice([lambda: x.d, lambda: x.value, lambda: x.v, lambda: x.ndview, lambda: x.to_ndarray() if hasattr(x, "to_ndarray") else x.d])()
        elif how == "special" and fr:
            f = lambda: x.to_comoving_value(u) if fr == "c" else x.to_physical_value(u)
        else:
            f = lambda: x.to_value(u, comoving={"c": True, "p": False, "": None}[fr])
        v = self.attempt(f)
        vals = []
        if v is not None:
            v = np.array(v, dtype=float)
            v = v * (x.units if u is None else unyt.Unit(u)).get_conversion_factor(self.ref[s], v.dtype)[0]
            if (fr or frame(x)) == "c":
                v = v * self.a ** (exponent(x) / 4)
            vals = [token(q) for q in v.ravel()]
        self.add("value", s, -1, ok=v is not None, fr=fr, vals=vals)

    def compat(self, s):
        x = self.x[s]
        if x.comoving is None:
            return
        self.add("compat", s, -1, vals=[int(bool(x.compatible_with_comoving())), int(bool(x.compatible_with_physical()))],
                 unity=abs(self.a ** (exponent(x) / 4) - 1) < 1e-12)


def guard(r, f):
    try:
        f()
    except Exception as e:
        if not common.from_repo(e) and not isinstance(e, (AttributeError, TypeError, ValueError)):
            raise
        r.ev["exc"] = repr(e)
    return r.ev


def history(c, sw, rng, n):
    r = Run(c, sw, rng)

    def go():
        r.new(0)
        for _ in range(n):
            live = [i for i in range(N) if r.x[i] is not None]
            s = rng.choice(live)
            d = rng.choice([i for i in range(N) if i != s])
            x = rng.random()
            if x < 0.06:
                r.new(d)
            elif x < 0.22:
                r.copy(s, d)
            elif x < 0.32:
                r.view(s, d)
            elif x < 0.42:
                r.unit(s, d)
            elif x < 0.58:
                r.frame(s, d)
            elif x < 0.66:
                r.construct(s, d)
            elif x < 0.80:
                r.inframe(s)
            elif x < 0.88:
                r.inunit(s)
            elif x < 0.91:
                r.badunit(s)
            elif x < 0.97:
                r.value(s)
            else:
                r.compat(s)
    return guard(r, go)


def replay(c, sw, rng, hist):
    """A path of the model, done with real arrays."""
    r = Run(c, sw, rng)
    r.a = r.ev["a"] = 0.5

    def go():
        for k in hist:
            if k["op"] == "new":
                r.new(0, e=4 * k["e"], fr=k["fr"], vt=k["vt"], dims="length", shape=rng.choice([(2,), (), (2, 2)]))
                continue
            s, d = k["s"] - 1, k["d"] - 1
            if k["op"] == "copy":
                r.copy(s, d, how=rng.choice(["copy", "deepcopy", "pickle", "flatten", "astype"]))
            elif k["op"] == "view":
                r.view(s, d)
            elif k["op"] == "unit":
                r.unit(s, d, rng.choice([u for u in UNITS["length"] if r.x[s].units != unyt.Unit(u)]))
            elif k["op"] == "frame":
                r.frame(s, d, k["x"])
            elif k["op"] == "construct":
                r.construct(s, d, k["x"])
            elif k["op"] == "inframe":
                r.inframe(s, k["x"])
            else:
                r.inunit(s, rng.choice([u for u in UNITS["length"] if r.x[s].units != unyt.Unit(u)]))
    return guard(r, go)


def body(c):
    import swiftsimio as sw

    warnings.simplefilter("ignore")
    K = dict(spec="Spec", invariants=["DenotesPhys", "AllConsistent"], properties=["OnlyTarget"], view="View")
    m = tlc.run("Frames", tlc.cfg_text(dict(N=2, Exps={0, 1, 2}, Variant="code", Emit=True),
                                       action_constraints=["EmitStep"], **K), workers=8)
    c.model(m, "Frames")
    c.model(tlc.run("Frames", tlc.cfg_text(dict(N=3, Exps=c.n("{1}", "{0, 1, 2}"), Variant="code", Emit=False), **K),
                    workers=8, timeout=1500), "Frames-3")
    for var in ("construct-in-place", "copy-shares", "no-check", "flag-only"):
        b = tlc.run("Frames", tlc.cfg_text(dict(N=2, Exps={0, 1, 2}, Variant=var, Emit=False), **K), workers=8,
                    allow_violation=True)
        assert b.violated, var
        c.info.setdefault("broken_variants_refuted", []).append(f"Frames:{var}")
    recs = m.records
    assert len(recs) > 5000
    c.rng.shuffle(recs)
    if not c.thorough:
        recs = recs[:2400]

    def rep(c, n):
        i = int(c.tmp.rsplit("/", 1)[1].split("_")[0])
        return [replay(c, sw, c.rng, x) for x in recs[i::8]]

    trace = fan(c, rep, 8)
    c.info["replayed"] = len(trace)
    trace += fan(c, lambda c, n: [history(c, sw, c.rng, c.rng.randint(4, 14)) for _ in range(n)], c.n(3000, 60000))
    for ev in trace:
        for o in ev["ops"]:
            c.count("op_" + o["op"] + ("" if o["ok"] else "_refused"))
    validate(c, "FrameTrace", trace, keyf=lambda ev, cl: "history")


if __name__ == "__main__":
    sys.exit(common.main("C01", body))
