"""Shared driver of W01, W02 and W03 (WriterOps/Writer/WriterTrace)."""
import math
import os
import warnings

import h5py
import numpy as np
import unyt

from vt import tlc
from vt.common import fan
from vt.checks.R02 import validate

TYPES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos", "sidm"]
FIELD = {1: "coordinates", 2: "velocities", 3: "masses", 4: "smoothing_lengths", 5: "internal_energy",
         6: "particle_ids"}
READ = {1: "coordinates", 2: "velocities", 3: "masses", 4: "smoothing_lengths", 5: "internal_energy",
        6: "particle_ids"}
NONE = dict(rows=[], n=-1, w=0, e=0)
SCALE = 4096
PROPS = ["RefusedKeeps", "WriteIff", "WrittenIds", "RefusedNoFile", "WriteTwice"]


def required(t):
    return {"gas": [1, 2, 3, 4, 5, 6], "stars": [1, 2, 3, 4, 6]}.get(t, [1, 2, 3, 6])


def token(x):
    """Nearest number with a mantissa of five bits, as an integer; -77777777 if none is near."""
    x = float(x)
    if x == 0:
        return 0
    if not math.isfinite(x):
        return -77777777
    m, q = math.frexp(x)
    r = round(m * 32)
    if abs(m * 32 - r) > 3.2e-3 or abs(x) > 2**17:
        return -77777777
    t = r * 2.0 ** (q - 5) * SCALE
    return int(t) if t == int(t) else -77777777


class Run:
    """One writer and its history."""

    def __init__(self, c, sw, rng, types=None, plain=False):
        from swiftsimio.metadata.writer.unit_systems import cosmo_units

        self.c, self.sw, self.rng, self.plain = c, sw, rng, plain
        self.types = types or rng.sample(TYPES, rng.choice([1, 2, 2, 3]))
        self.a = 1.0 if plain else rng.choice([1.0, 0.5, 0.25, 0.125])
        self.dim = 3 if plain else rng.choice([2, 3, 3, 3])
        name = "cosmo" if plain else rng.choice(["cosmo", "cosmo", "galactic", "cgs", "mks"])
        us = cosmo_units if name == "cosmo" else unyt.unit_systems.unit_system_registry[name]
        self.sysname = name
        self.base = {k: unyt.unit_object.Unit(us.base_units[getattr(unyt.dimensions, k)])
                     for k in ("length", "mass", "time", "temperature")}
        L, M, T = self.base["length"], self.base["mass"], self.base["time"]
        self.ref = {1: L, 2: L / T, 3: M, 4: L, 5: (L / T) ** 2}
        u = unyt
        self.units = {1: [L, u.Mpc, u.kpc, u.m, u.cm], 2: [L / T, u.km / u.s, u.cm / u.s, u.Mpc / u.Gyr],
                      3: [M, u.solMass, u.kg, u.g], 5: [(L / T) ** 2, u.km**2 / u.s**2, u.erg / u.g, u.J / u.kg]}
        self.units[4] = self.units[1]
        side = rng.choice([3.0, 6.0, 12.0])
        box = [side] * self.dim
        if not plain and rng.random() < 0.2:
            box[rng.randrange(self.dim)] = 10.0
        self.box = [token(x) for x in box]
        frame = plain or rng.random() < 0.7
        self.extra = None if plain or rng.random() < 0.5 else {"Extra": 17, "Note": "text"}
        kw = {}
        if name != "cosmo" or rng.random() < 0.5:
            kw["unit_system"] = us if name == "cosmo" or rng.random() < 0.5 else name
        if self.a != 1.0 or rng.random() < 0.5:
            kw["scale_factor"] = self.a
        if self.dim != 3 or rng.random() < 0.5:
            kw["dimension"] = self.dim
        bu = L if plain else rng.choice(self.units[1])
        self.w = sw.Writer(
            boxsize=sw.cosmo_array(np.array(box) * L.get_conversion_factor(bu)[0] / (self.a if frame else 1), bu,
                                   comoving=frame, scale_factor=self.a, scale_exponent=1),
            compress=rng.random() < 0.5, extra_header=self.extra, **kw)
        self.ops = []
        self.nfile = 0
        self.ev = dict(kinds=[t if t in ("gas", "stars") else "other" for t in self.types], dim=self.dim,
                       box=self.box, exc="", ops=self.ops, types=self.types, units=name, a=self.a)

    # ---- observation -----------------------------------------------------
    def slot(self, x, f):
        """What an array (of the writer or of a loaded file) holds, as a slot of the model."""
        if x is None:
            return dict(NONE)
        v = np.asarray(x).view(np.ndarray)
        if f == 6:
            return dict(rows=[int(i) for i in v.ravel()], n=len(v), w=0, e=0)
        expr = x.cosmo_factor.expr
        e = 0.0 if expr == 1 else float(expr.as_base_exp()[1])
        k = x.units.get_conversion_factor(self.ref[f], v.dtype)[0]
        v = v.astype(float) * k
        if x.comoving:
            v = v * x.cosmo_factor.scale_factor ** e
        if x.cosmo_factor.scale_factor != self.a:
            v = v * np.nan
        return dict(rows=[token(i) for i in v.ravel()], n=v.shape[0], w=v.shape[1] if v.ndim > 1 else 0,
                    e=round(4 * e))

    def get(self, t, f):
        return getattr(getattr(self.w, t), FIELD[f], None)

    # ---- operations ------------------------------------------------------
    def physical(self, f, n, w):
        rng = self.rng
        if f == 2:
            one = lambda: rng.choice([-1, 1]) * rng.randint(1, 15) * 2.0 ** rng.randint(-4, 3) * rng.choice([0, 1, 1, 1])
        elif f == 1:
            one = lambda: rng.randint(0, 11) + rng.choice([0.0, 0.25])
        else:
            one = lambda: rng.randint(1, 15) * 2.0 ** rng.randint(-4, 3)
        shape = (n, w) if w else (n,)
        return np.array([one() for _ in range(n * max(w, 1))], dtype=float).reshape(shape)

    def quantity(self, f, P, kind="good"):
        rng = self.rng
        e = rng.choice({1: [4, 4, 0], 2: [4, 0, -2], 3: [0, 0, 4], 4: [4, 4, 0], 5: [-8, 0, -4]}[f])
        if self.plain:
            e = {1: 4, 2: 4, 3: 0, 4: 4, 5: -8}[f]
        frame = rng.random() < 0.5
        unit = self.ref[f] if self.plain else rng.choice(self.units[f])
        a = self.a if kind != "scale" else rng.choice([x for x in (1.0, 0.5, 0.3) if x != self.a])
        v = P * self.ref[f].get_conversion_factor(unit)[0] / (a ** (e / 4) if frame else 1)
        dtype = rng.choice(["f8", "f8", "f4"])
        big = np.abs(v[v != 0])
        if dtype == "f4" and self.sysname in ("cosmo", "galactic") and (big.size == 0 or
                                                                       (big.max() < 1e37 and big.min() > 1e-37)):
            v = v.astype("f4")
            # the factor into the base units has to be representable as well
            k = unit.get_conversion_factor(self.ref[f])[0]
            if not 1e-37 < k < 1e37:
                v = v.astype("f8")
        if kind == "plain":
            return rng.choice([np.asarray(v), unyt.unyt_array(v, unit), list(np.ravel(v)), None])
        if kind == "dims":
            unit = rng.choice([x for x in (unyt.kg, unyt.m, unyt.s, unyt.K, unyt.dimensionless)
                               if x.dimensions != unit.dimensions])
        if kind == "novt":
            return self.sw.cosmo_array(v, unit, comoving=False, scale_factor=a, scale_exponent=e / 4,
                                       valid_transform=False)
        if kind == "scale" and rng.random() < 0.3:
            return self.sw.cosmo_array(v, unit, comoving=frame)
        return self.sw.cosmo_array(v, unit, comoving=frame, scale_factor=a, scale_exponent=e / 4)

    def set(self, t, f, n, kind="good", w=None, values=None, dtype=None):
        rng = self.rng
        op = dict(op="set", t=self.types.index(t) + 1, f=f, kind=kind, ok=True, same=True)
        if f == 6:
            arr = np.array(values, dtype=dtype or "i8")
            op["val"] = dict(rows=[int(i) for i in arr], n=len(arr), w=0, e=0)
            how = rng.choice(["plain", "unyt", "cosmo", "cosmo"])
            if kind == "dims":
                x = self.sw.cosmo_array(arr, unyt.m, comoving=True, scale_factor=self.a, scale_exponent=0)
            elif kind == "scale":
                x = self.sw.cosmo_array(arr, unyt.dimensionless, comoving=True, scale_factor=self.a / 2 + 0.1,
                                        scale_exponent=0)
            elif how == "plain":
                x = arr
            elif how == "unyt":
                x = unyt.unyt_array(arr, unyt.dimensionless)
            else:
                x = self.sw.cosmo_array(arr, unyt.dimensionless, comoving=rng.random() < 0.5, scale_factor=self.a,
                                        scale_exponent=0)
        else:
            if w is None:
                w = 0 if f > 2 else 3
            P = self.physical(f, n, w)
            x = self.quantity(f, P, kind)
            op["val"] = dict(rows=[token(i) for i in P.ravel()], n=n, w=w, e=0)
            if kind in ("good", "novt"):
                expr = x.cosmo_factor.expr
                op["val"]["e"] = 0 if expr == 1 else round(4 * float(expr.as_base_exp()[1]))
        from vt.obs import snapshot
        before = snapshot(x)
        try:
            setattr(getattr(self.w, t), FIELD[f], x)
        except Exception:
            op["ok"] = False
        op["same"] = snapshot(x) == before
        op["obs"] = self.slot(self.get(t, f), f)
        self.ops.append(op)

    def delete(self, t, f):
        delattr(getattr(self.w, t), FIELD[f])
        self.ops.append(dict(op="del", t=self.types.index(t) + 1, f=f, obs=self.slot(self.get(t, f), f)))

    def gen(self, t):
        x = self.get(t, 1)
        if x is not None and round(len(x) ** (1 / self.dim)) ** self.dim != len(x):
            return
        op = dict(op="gen", t=self.types.index(t) + 1, ok=True)
        try:
            getattr(self.w, t).generate_smoothing_lengths()
        except Exception:
            op["ok"] = False
        op["obs"] = self.slot(self.get(t, 4), 4)
        self.ops.append(op)

    def write(self):
        rng = self.rng
        op = dict(op="write", ok=True, exists=False)
        again = self.nfile and rng.random() < 0.3
        if not again:
            self.nfile += 1
        p = os.path.join(self.c.tmp, f"w{self.nfile}.hdf5")
        if not again and os.path.exists(p):
            os.unlink(p)
        old = open(p, "rb").read() if os.path.exists(p) else None
        try:
            self.w.write(p)
        except Exception:
            op["ok"] = False
        if not op["ok"]:
            if os.path.exists(p):
                try:
                    self.sw.load(p).metadata.present_group_names
                    op["exists"] = open(p, "rb").read() != old
                except Exception:
                    pass
        else:
            self.observe(op, p)
        self.ops.append(op)

    def observe(self, op, p):
        sw = self.sw
        if not any(self.slot(self.get(t, f), f)["n"] >= 0 for t in self.types for f in required(t)):
            op["file"], op["head"] = [], {}
            return
        d = sw.load(p)
        md = d.metadata
        op["file"] = []
        num = [int(x) for x in md.num_part]
        head = dict(num=[], mass=[], other=sum(num), dim=int(md.dimension))
        table = np.asarray(md.header["MassTable"])
        for t in self.types:
            i = TYPES.index(t)
            here = t in md.present_group_names
            rec = dict(present=here, fields=[dict(NONE) for _ in range(5)], ids=[])
            if here:
                g = getattr(d, t)
                for f in required(t):
                    s = self.slot(getattr(g, READ[f]), f)
                    if f == 6:
                        rec["ids"] = s["rows"]
                    else:
                        rec["fields"][f - 1] = s
            op["file"].append(rec)
            head["num"].append(num[i])
            head["other"] -= num[i]
            e = rec["fields"][2]["e"] / 4
            head["mass"].append(token(float(table[i]) * self.a**e))
        b = md.boxsize
        head["box"] = self.slot(sw.cosmo_array(np.ravel(b), b.units, comoving=b.comoving, scale_factor=self.a,
                                               scale_exponent=1), 1)["rows"]
        extra = md.header
        head["a"] = bool(np.isclose(md.a, self.a)) and (
            self.extra is None or (int(np.ravel(extra["Extra"])[0]) == 17
                                   and np.ravel(extra["Note"])[0] in (b"text", "text")))
        # the other particle types have no group
        head["a"] = head["a"] and set(md.present_group_names) <= set(self.types)
        op["head"] = head

    # ---- finishing -------------------------------------------------------
    def event(self):
        """Identifiers replaced by their rank (sign kept)."""
        ids = set()
        slots = []
        for o in self.ops:
            for s in (o.get("val"), o.get("obs")):
                if s and o.get("f") == 6:
                    slots.append((s, "rows"))
            if o["op"] == "write" and o["ok"]:
                slots += [(r, "ids") for r in o["file"]]
        for s, k in slots:
            ids |= set(s[k])
        pos = {v: i + 1 for i, v in enumerate(sorted(x for x in ids if x > 0))}
        neg = {v: -i for i, v in enumerate(sorted((x for x in ids if x <= 0), reverse=True))}
        for s, k in slots:
            s[k] = [pos.get(v, neg.get(v)) for v in s[k]]
        return self.ev


def idlist(rng, n, used):
    """Identifiers for n particles: (values, dtype)."""
    how = rng.random()
    base = rng.choice([1, 1, 100, 2**31 - 2, 2**53 - 1, 2**62])
    dtype = rng.choice(["i8", "i8", "u8", "i4" if base + 40 < 2**31 else "i8"])
    if dtype == "u8" and rng.random() < 0.4:
        base = 2**63 + rng.choice([0, 1000])
    if used and how < 0.5:  # near the ones of another type
        base = rng.choice(used) + rng.choice([0, 1, 1, 40, 40, -1])
        dtype = "u8" if base > 2**63 - 100 else rng.choice(["i8", "u8"])
        if base < 1:
            base = 1
    v = list(range(base, base + n))
    rng.shuffle(v)
    bad = rng.random()
    if n and bad < 0.08 and dtype != "u8":
        v[rng.randrange(n)] = rng.choice([0, -1, -5])
    elif n > 1 and bad < 0.16:
        v[0] = v[-1]
    elif n and bad < 0.2 and dtype == "u8":
        v[0] = 0
    used += [x for x in v if x > 0]
    return v, dtype


def history(c, sw, rng):
    r = Run(c, sw, rng)
    try:
        count = {t: rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 9]) for t in r.types}
        used = []
        width = rng.choice([3, 3, 3, 2])
        r.ids_given = rng.random() < 0.6
        for t in r.types:
            for f in rng.sample(required(t), len(required(t))):
                x = rng.random()
                if x < 0.02:
                    continue
                if f == 4 and rng.random() < 0.4:
                    r.gen(t)
                    if rng.random() < 0.7:
                        continue
                if f == 6:
                    if r.ids_given and rng.random() < 0.85:
                        v, dt = idlist(rng, count[t] + (rng.choice([-1, 1]) if rng.random() < 0.04 and count[t] else 0), used)
                        r.set(t, 6, len(v), values=v, dtype=dt, kind="good" if rng.random() < 0.94 else rng.choice(["dims", "scale"]))
                    continue
                n, w = count[t], width if f <= 2 else 0
                if rng.random() < 0.02:
                    n += 1
                if rng.random() < 0.02 and f <= 2:
                    w = 5 - w
                r.set(t, f, n, w=w)
                if rng.random() < 0.06:  # a refused assignment over a good one
                    r.set(t, f, n, w=w, kind=rng.choice(["dims", "scale", "plain"]))
        for _ in range(rng.randint(1, 7)):
            x = rng.random()
            t = rng.choice(r.types)
            f = rng.choice(required(t))
            if x < 0.4:
                r.write()
            elif x < 0.5 or f == 6 and x < 0.6:
                if f == 6 or rng.random() < 0.3:
                    v, dt = idlist(rng, count[t], used)
                    r.set(t, 6, len(v), values=v, dtype=dt)
                else:
                    r.set(t, f, count[t], w=width if f <= 2 else 0)
            elif x < 0.65 and f != 6:
                r.set(t, f, count[t] + rng.choice([0, 0, 1]), w=width if f <= 2 else 0,
                      kind=rng.choice(["good", "dims", "scale", "plain", "novt"]))
                if r.ops[-1]["kind"] == "novt":
                    break  # what is stored then is not specified
            elif x < 0.72:
                r.delete(t, f)
            elif x < 0.8:
                r.gen(t)
            elif x < 0.84:  # a type emptied entirely
                for g in required(t):
                    r.delete(t, g)
            elif x < 0.92:  # every field assigned anew with another count
                count[t] = rng.choice([0, 1, 2, 4, 8])
                for g in required(t):
                    if g == 6:
                        if rng.random() < 0.5:
                            r.delete(t, 6)
                        else:
                            v, dt = idlist(rng, count[t], used)
                            r.set(t, 6, len(v), values=v, dtype=dt)
                    else:
                        r.set(t, g, count[t], w=width if g <= 2 else 0)
        if r.ops[-1]["op"] != "write" and not any(o.get("kind") == "novt" for o in r.ops):
            r.write()
    except Exception as e:
        from vt.common import from_repo
        if not from_repo(e):
            raise
        r.ev["exc"] = repr(e)
    return r.event()


def replay(c, sw, rng, rec):
    """The real writer brought into a state of the model, then asked to write."""
    r = Run(c, sw, rng, ["dark_matter", "stars"], plain=True)
    try:
        for t in (0, 1):
            for f in range(1, 7):
                s = rec["s"][t][f - 1]
                if s["n"] < 0 or f not in required(r.types[t]):
                    continue
                if f == 6:
                    r.set(r.types[t], 6, s["n"], values=s["rows"])
                else:
                    r.set(r.types[t], f, s["n"], w=s["w"])
        r.write()
        ok = r.ops[-1]["ok"]
        if ok != rec["ok"]:
            c.violation("replay", "inconsistent-write-refused" if ok else "consistent-write-accepted", case=rec)
        if rng.random() < 0.3:
            r.write()
    except Exception as e:
        from vt.common import from_repo
        if not from_repo(e):
            raise
        r.ev["exc"] = repr(e)
    return r.event()


def body(c, clauses):
    import swiftsimio as sw

    warnings.simplefilter("ignore")
    raw = c.violation

    def filtered(key, clause, **d):
        if clause in clauses or clause in ("no-unexpected-error", "no-unexpected-exception", "no-crash"):
            raw(key, clause, **d)
    c.violation = filtered

    k = dict(MaxId=3, Wide=True, Variant="code", Emit=True)
    m = tlc.run("Writer", tlc.cfg_text(k, spec="Spec", properties=PROPS, action_constraints=["EmitWrite"],
                                       view="View"), workers=8, timeout=1500)
    c.model(m, "Writer")
    if c.thorough:
        k2 = dict(k, MaxId=4, Emit=False)
        c.model(tlc.run("Writer", tlc.cfg_text(k2, spec="Spec", properties=PROPS, view="View"), workers=8,
                        timeout=3000), "Writer-larger")
    for var, prop in (("missing-only", "WrittenIds"), ("store-first", "RefusedKeeps"), ("per-type", "WriteIff")):
        b = tlc.run("Writer", tlc.cfg_text(dict(k, Emit=False, Variant=var), spec="Spec", properties=[prop], view="View"),
                    workers=8, timeout=1500, allow_violation=True)
        assert b.violated, var
        c.info.setdefault("broken_variants_refuted", []).append(f"Writer:{var}")
    recs = m.records
    assert len(recs) > 1000
    good = [r for r in recs if r["ok"]]
    bad = [r for r in recs if not r["ok"]]
    c.info["model_writes"] = dict(accepted=len(good), refused=len(bad))
    if not c.thorough:
        recs = c.rng.sample(good, min(len(good), 350)) + c.rng.sample(bad, min(len(bad), 250))

    def rep(c, n):
        i = int(c.tmp.rsplit("/", 1)[1].split("_")[0])
        return [replay(c, sw, c.rng, x) for x in recs[i::8]]

    trace = fan(c, rep, 8)
    c.info["replayed"] = len(trace)
    trace += fan(c, lambda c, n: [history(c, sw, c.rng) for _ in range(n)], c.n(1400, 24000))
    validate(c, "WriterTrace", trace, keyf=lambda ev, cl: "history")
    for ev in trace:
        for o in ev["ops"]:
            c.count("op_" + o["op"] + ("" if o.get("ok", True) else "_refused"))
