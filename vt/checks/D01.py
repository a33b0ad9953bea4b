"""D01: fields are read on first access, kept, overridable, re-read after deletion."""
import sys

import h5py
import numpy as np

from vt import common, obs, snap, tlc
from vt.checks.R02 import validate
from vt.common import fan

V, F, M = 64, 4096, 2**20  # value = row + V * version + F * field + M * in-place changes
NAMED = {"ElementMassFractions": ["Hydrogen", "Helium", "Carbon"], "SpeciesFractions": ["HII", "HeIII"]}


class World:
    """A file with several kinds of field, and how to reach and decode each."""

    def __init__(self, kind, nrows, rng=None):
        self.kind = kind
        self.nrows = nrows  # rows per group
        if kind == "snap":
            self.groups = ["gas", "dark_matter", "stars"][: len(nrows)]
            self.hdf = ["PartType0", "PartType1", "PartType4"][: len(nrows)]
            self.slots = []  # (group index, attribute path, dataset, column)
            for g, h in enumerate(self.hdf):
                self.slots += [(g, "masses", f"{h}/Masses", None), (g, "positions_of", f"{h}/PositionsOf", None)]
                if g == 0:
                    self.slots += [(g, "element_mass_fractions.hydrogen", f"{h}/ElementMassFractions", 0),
                                   (g, "element_mass_fractions.carbon", f"{h}/ElementMassFractions", 2),
                                   (g, "species_fractions.HeIII", f"{h}/SpeciesFractions", 1)]
        elif kind == "soap":
            self.groups = ["bound_subhalo", "spherical_overdensity_200_crit"][: len(nrows)]
            self.hdf = ["BoundSubhalo", "SO/200_crit"][: len(nrows)]
            self.slots = [(g, "masses", f"{h}/Masses", None) for g, h in enumerate(self.hdf)]
            self.slots += [(g, "positions_of", f"{h}/PositionsOf", None) for g, h in enumerate(self.hdf)]
        else:
            self.groups = [f"los_000{i}" for i in range(len(nrows))]
            self.hdf = [f"LOS_000{i}" for i in range(len(nrows))]
            self.slots = []
            for g, h in enumerate(self.hdf):
                self.slots += [(g, "masses", f"{h}/Masses", None), (g, "positions_of", f"{h}/PositionsOf", None),
                               (g, "xpos", f"{h}@Xpos", "attr"), (g, "zpos", f"{h}@Zpos", "attr")]

    def content(self, i, ver):
        g, _, path, col = self.slots[i]
        rows = np.arange(self.nrows[g], dtype=float)
        base = V * ver + F * (i + 1)
        if col == "attr":
            return np.array([float(base)])
        if path.endswith("PositionsOf"):
            return rows[:, None] + base + np.arange(3) * (2.0 ** -3)
        return rows + base

    def rewrite(self, h, ver):
        for i, (g, _, path, col) in enumerate(self.slots):
            if col == "attr":
                p, a = path.split("@")
                h[p].attrs[a] = self.content(i, ver)
            elif col is None:
                h[path][...] = self.content(i, ver)
            else:
                h[path][:, col] = self.content(i, ver)

    def build(self, path, rng):
        chunk = rng.choice([None, 2, 5])
        fields = {
            "Masses": (lambda r: np.zeros(len(r)), snap.fattrs(M=1.0), chunk),
            "PositionsOf": (lambda r: np.zeros((len(r), 3)), snap.fattrs(L=1.0, a=1.0), chunk),
            "Value": (lambda r: np.asarray(r, float), snap.fattrs(), None),
        }
        cols = {k: (lambda r, k=k: np.zeros((len(r), len(NAMED[k]))), snap.fattrs(), chunk) for k in NAMED}
        h = h5py.File(path, "w")
        if self.kind == "snap":
            t = [int(x[-1]) for x in self.hdf]
            w = snap.World((1, 1, 1), (4.0, 4.0, 4.0), [0],
                           {k: [(0, (1.0, 1.0, 1.0))] * n for k, n in zip(t, self.nrows)})
            snap.snapshot(h, w, named=NAMED, links=False, has_type=[int(k in t) for k in range(7)],
                          fields={k: dict(fields, **(cols if k == 0 else {})) for k in t})
        elif self.kind == "soap":
            w = snap.World((1, 1, 1), (4.0, 4.0, 4.0), [0], {0: [(0, (1.0, 1.0, 1.0))] * self.nrows[0]})
            snap.soap(h, w, groups=self.hdf, fields={g: fields for g in self.hdf})
        else:
            snap.header(h, output_type="LineOfSight", num=[sum(self.nrows)] + [0] * 6)
            for g, n in zip(self.hdf, self.nrows):
                for k, (fn, at, ch) in fields.items():
                    snap.put(h, f"{g}/{k}", fn(np.arange(n)), at, ch if n else None)
                h[g].attrs["Xpos"] = np.zeros(1)
                h[g].attrs["Zpos"] = np.zeros(1)
        self.rewrite(h, 1)
        h.close()

    def get(self, d, i):
        o = getattr(d, self.groups[self.slots[i][0]])
        path = self.slots[i][1].split(".")
        return (getattr(o, path[0]), path[1]) if len(path) == 2 else (o, path[0])

    def groupof(self):
        """Group of each slot; attributes of a group get a group with the one row 0."""
        return [len(self.nrows) + 1 if s[3] == "attr" else s[0] + 1 for s in self.slots]

    def allrows(self):
        return [list(range(n)) for n in self.nrows] + [[0]]


class Session:
    """Executes the events of one history and records what is seen."""

    def __init__(self, sw, world, path, rng):
        self.sw, self.w, self.path, self.rng = sw, world, path, rng
        world.build(path, rng)
        self.ver = 1
        self.ds, self.mask = [], None
        self.objs = []  # every object ever seen; identity = position
        self.attrs = {}
        self.steps = []

    def tok(self, x):
        for k, y in enumerate(self.objs):
            if y is x:
                return k + 1
        self.objs.append(x)
        return len(self.objs)

    def selection(self):
        out = []
        for nm, n in zip(self.w.groups, self.w.nrows):
            m = getattr(self.mask, nm)
            if self.mask.range_mask:
                out.append([int(r) for a, b in m for r in range(a, b)])
            else:
                out.append([int(i) for i in np.where(m)[0]])
        return out + [[0]]

    def decode(self, i, x):
        v = obs.values(x).astype(float)
        if self.w.slots[i][3] == "attr":
            v = v.reshape(1)
        if v.ndim == 2:
            if v.shape[1] != 3 or not (v - v[:, :1] == np.arange(3) * 0.125).all():
                return -1, -1, [-1]
            v = v[:, 0]
        if v.ndim != 1:
            return -1, -1, [-1]
        muts, r = np.divmod(v, M)
        fld, r = np.divmod(r, F)
        ver, row = np.divmod(r, V)
        if len(v) == 0:
            return 0, 0, []
        if (fld != i + 1).any() or (muts != muts[0]).any() or (ver != ver[0]).any():
            return -1, -1, [-1]
        return int(ver[0]), int(muts[0]), [int(x) for x in row]

    def do(self, e):
        op = e["op"]
        r = dict(e, exc="", tok=e.get("tok", 0), ver=0, muts=0, rows=[], attrs=True, sel=[])
        try:
            if op == "rewrite":
                self.ver += 1
                with h5py.File(self.path, "r+") as h:
                    self.w.rewrite(h, self.ver)
            elif op == "load":
                if e["masked"] and self.mask is None:
                    self.mask = self.sw.mask(self.path)
                self.ds.append(self.sw.load(self.path, mask=self.mask if e["masked"] else None))
            elif op == "mask":
                if self.mask is None:
                    self.mask = self.sw.mask(self.path)
                e["do"](self.mask)
                r.pop("do")
                r["sel"] = self.selection()
            elif op == "assign":
                o, a = self.w.get(self.ds[e["d"] - 1], e["f"] - 1)
                r["tok"] = self.tok(e["value"])
                r.pop("value")
                setattr(o, a, e["value"])
            elif op == "delete":
                o, a = self.w.get(self.ds[e["d"] - 1], e["f"] - 1)
                delattr(o, a)
            elif op == "mutate":
                o, a = self.w.get(self.ds[e["d"] - 1], e["f"] - 1)
                getattr(o, a).view(np.ndarray)[...] += M
            elif op == "read":
                o, a = self.w.get(self.ds[e["d"] - 1], e["f"] - 1)
                x = getattr(o, a)
                r["tok"] = self.tok(x)
                mine = any(st["op"] == "assign" and st["tok"] == r["tok"] for st in self.steps)
                if isinstance(x, np.ndarray) and hasattr(x, "comoving") and not mine:
                    try:
                        r["ver"], r["muts"], r["rows"] = self.decode(e["f"] - 1, x)
                        at = obs.attrs_of(x)
                        at.pop("shape")
                        want = self.attrs.setdefault(e["f"], at)
                        r["attrs"] = want == at
                    except Exception as ex:
                        r["rows"], r["odd"] = [-1], repr(ex)
                else:
                    r["ver"], r["rows"] = -1, [-1]
        except Exception as ex:
            r["exc"] = repr(ex)
            r.pop("do", None)
            r.pop("value", None)
        self.steps.append(r)
        return r

    def event(self):
        return dict(kind=self.w.kind, groupof=self.w.groupof(), allrows=self.w.allrows(), steps=self.steps)


def user_value(sw, rng, k):
    form = rng.randrange(6)
    if form == 0:
        return 0.0 + k
    if form == 1:
        return np.zeros(0)
    if form == 2:
        return [k]
    if form == 3:
        return f"user {k}"
    if form == 4:
        return {}
    return sw.cosmo_array([float(k)], "Mpc", comoving=True, scale_factor=0.5, scale_exponent=1)


def window(sw, msk, group, lo, hi):
    q = lambda x: sw.cosmo_quantity(x, "dimensionless", comoving=True, scale_factor=msk.metadata.a, scale_exponent=0)
    msk.constrain_property(group, "value", q(lo), q(hi))


def replay(c, sw, recs):
    out = []
    for k, r in enumerate(recs):
        kind = c.rng.choice(["snap", "soap"])
        w = World(kind, [2])
        f = c.rng.randrange(len(w.slots)) + 1
        s = Session(sw, w, c.path(f"m{k}.hdf5"), c.rng)
        # a mask exists from the start (the model's initial state selects everything)
        for n, e in enumerate(r["steps"]):
            e = dict(e)
            if "f" in e:
                e["f"] = f
            if e["op"] == "assign":
                e["value"] = user_value(sw, c.rng, n)
            if e["op"] == "mask":
                keep = e.pop("sel")[0]

                def do(m, keep=keep):
                    lo, hi = (min(keep) - 0.5, max(keep) + 0.5) if keep else (-3.0, -2.0)
                    window(sw, m, w.groups[0], lo, hi)

                e["do"] = do
            s.do(e)
        out.append(s.event())
    return out


def random_histories(c, sw, n):
    rng = c.rng
    out = []
    for it in range(n):
        kind = rng.choice(["snap", "snap", "soap", "los"])
        k = rng.choice([1, 2, 3] if kind != "soap" else [1, 2])
        nrows = [rng.choice([1, 2, 7, 12]) for _ in range(k)]
        if kind == "soap":
            nrows = [nrows[0]] * k
        w = World(kind, nrows)
        s = Session(sw, w, c.path(f"r{it}.hdf5"), rng)
        s.do(dict(op="load", masked=False))
        hot = rng.sample(range(1, len(w.slots) + 1), min(len(w.slots), rng.choice([1, 2, 4])))
        for step in range(rng.choice([8, 15, 30])):
            op = rng.choice(["read"] * 6 + ["assign", "delete", "delete", "mutate", "rewrite", "load", "mask", "mask"])
            e = dict(op=op)
            if op in ("read", "assign", "delete", "mutate"):
                e["d"] = rng.randrange(len(s.ds)) + 1
                e["f"] = rng.choice(hot) if rng.random() < 0.8 else rng.randrange(len(w.slots)) + 1
                if op == "assign":
                    e["value"] = user_value(sw, rng, step)
                if op == "mutate":
                    # only arrays the dataset already holds: read first
                    s.do(dict(op="read", d=e["d"], f=e["f"]))
                    o, a = w.get(s.ds[e["d"] - 1], e["f"] - 1)
                    x = s.objs[s.steps[-1]["tok"] - 1]
                    if s.steps[-1]["exc"] or not hasattr(x, "comoving") or any(st["op"] == "assign" and st["tok"] == s.steps[-1]["tok"] for st in s.steps):
                        continue
            elif op == "load":
                if len(s.ds) >= 5:
                    continue
                e["masked"] = kind != "los" and rng.random() < 0.7
            elif op == "rewrite" and s.ver > 30:
                continue
            elif op == "mask":
                if kind == "los":
                    continue
                what = rng.choice(["window", "window", "bool", "ranges", "spatial", "boolarray"])
                g = rng.choice(w.groups)
                lo = rng.uniform(-1, 6)
                hi = lo + rng.choice([1, 4, 20])

                def do(m, what=what, g=g, lo=lo, hi=hi):
                    if what == "window":
                        window(sw, m, g, lo, hi)
                    elif what == "bool":
                        m.convert_masks_to_bool()
                    elif what == "ranges":
                        m.convert_masks_to_ranges()
                    elif what == "spatial":
                        q = lambda x: sw.cosmo_quantity(x, m.metadata.units.length, comoving=True,
                                                        scale_factor=m.metadata.a, scale_exponent=1)
                        try:
                            m.constrain_spatial([[q(0.1), q(1.5)], None, None])
                        except (ValueError, RuntimeError):
                            pass
                    else:  # a user editing the boolean mask in place
                        m.convert_masks_to_bool()
                        x = getattr(m, g)
                        if len(x):
                            x[0] = False
                            if kind == "soap":
                                for other in w.groups:
                                    getattr(m, other)[0] = False

                e["do"] = do
            s.do(e)
        out.append(s.event())
    return out


def body(c):
    import swiftsimio as sw

    cfg = lambda **k: dict(dict(NF=2, NR=1, MaxDs=2, MaxLen=99, MaxVer=2, MaxMut=1, InPlace=False, Emit=False), **k)
    m = tlc.run("LazyFields", tlc.cfg_text(cfg(NR=c.n(1, 2), MaxVer=c.n(2, 3)), spec="Spec",
                                           invariants=["ReadsRight", "SlotsAgree"],
                                           constraints=["Bound"], view="View"), workers=8, timeout=1500)
    c.model(m, "LazyFields")
    # the model can tell: with masks changed in place the property fails
    bad = tlc.run("LazyFields", tlc.cfg_text(cfg(InPlace=True), spec="Spec", invariants=["ReadsRight"],
                                             constraints=["Bound"], view="View"), workers=8, allow_violation=True)
    assert bad.violated == "ReadsRight"
    m = tlc.run("LazyFields", tlc.cfg_text(cfg(NF=1, NR=2, MaxLen=c.n(5, 6), MaxVer=3, Emit=True), spec="Spec",
                                           invariants=["ReadsRight", "EmitCase"], constraints=["Bound"]),
                workers=8, timeout=900)
    c.model(m, "LazyFields emit")
    recs = m.records
    c.count("model_histories", len(recs))
    random_histories(c, sw, 2)  # compile before forking
    k = c.n(2500, 60000)
    trace = fan(c, lambda c, n: replay(c, sw, c.rng.sample(recs, min(n, len(recs)))), k)
    trace += fan(c, lambda c, n: random_histories(c, sw, n), c.n(500, 8000))
    validate(c, "LazyTrace", trace, keyf=lambda ev, cl: ev["kind"])


if __name__ == "__main__":
    sys.exit(common.main("D01", body))
