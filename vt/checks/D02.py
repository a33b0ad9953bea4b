"""D02: files are opened only when needed, handles belong to whoever opened them."""
import pathlib
import sys

import h5py
import numpy as np

from vt import common, snap, tlc
from vt.checks.R02 import validate
from vt.common import fan

INV = ["NoneLeftOpen", "UserHandleKept", "NeverTwice", "ReadsLive", "OpenedRightly"]
OPENS = {"on": False, "names": []}
FIELDS = {"snap": {1: "masses", 2: "element_mass_fractions.carbon", 3: "broken", 4: "coordinates"},
          "los": {1: "masses", 2: "xpos", 3: "broken", 4: "coordinates"}}
FIELDS["soap"] = FIELDS["fof"] = {1: "masses", 2: "velocities", 3: "broken", 4: "coordinates"}
GROUPS = {"snap": ["gas", "dark_matter"], "soap": ["input_halos", "bound_subhalo"], "fof": ["fof_groups"] * 2,
          "los": ["los_0000", "los_0001"]}


def instrument():
    real = h5py.File.__init__

    def init(self, name, *a, **k):
        if OPENS["on"] and isinstance(name, (str, bytes, pathlib.Path)):
            OPENS["names"].append(str(name))
        return real(self, name, *a, **k)

    h5py.File.__init__ = init


def left():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def build(c):
    """The file under test and its broken relatives."""
    good = c.path("good.hdf5")
    w = snap.World((2, 1, 1), (4.0, 4.0, 4.0), [0, 1],
                   {0: [(0, (1.0, 1.0, 1.0)), (1, (5.0, 1.0, 1.0))] * 3, 1: [(1, (6.0, 1.0, 1.0))] * 4})
    f = {"Masses": (lambda r: np.ones(len(r)), snap.fattrs(M=1.0), 2),
         "ElementMassFractions": (lambda r: np.ones((len(r), 3)), snap.fattrs(), None),
         "Broken": (lambda r: np.ones(len(r)), snap.fattrs(), None)}

    def write(p, **k):
        h = h5py.File(p, "w")
        snap.snapshot(h, w, fields={0: f, 1: f}, named={"ElementMassFractions": ["Hydrogen", "Helium", "Carbon"]},
                      has_type=[1, 1, 0, 0, 0, 0, 0], **k)
        for g in ("PartType0", "PartType1"):
            h[f"{g}/Broken"].attrs["U_L exponent"] = 1.0  # not a length-1 array: reading raises
        return h

    write(good).close()
    good = dict(snap=good)
    rest = {"Masses": f["Masses"], "Velocities": (lambda r: np.ones((len(r), 3)), snap.fattrs(L=1.0, t=-1.0), 2),
            "Coordinates": (lambda r: np.ones((len(r), 3)), snap.COORD, None), "Broken": f["Broken"]}
    for kind, names in (("soap", ["InputHalos", "BoundSubhalo"]), ("fof", ["Groups"]), ("los", ["LOS_0000", "LOS_0001"])):
        good[kind] = c.path(f"good{kind}.hdf5")
        h = h5py.File(good[kind], "w")
        if kind == "soap":
            snap.soap(h, w, groups=names, fields={g: rest for g in names})
        else:
            snap.header(h, output_type={"fof": "FOF", "los": "LineOfSight"}[kind], num=[6] + [0] * 6)
            for g in names:
                for k, (fn, at, ch) in rest.items():
                    snap.put(h, f"{g}/{k}", fn(np.arange(6)), at, ch)
                if kind == "los":
                    h[g].attrs["Xpos"] = np.ones(1)
        for g in names:
            h[f"{g}/Broken"].attrs["U_L exponent"] = 1.0
        h.close()
    bad = {}
    for k, ot in (("unknown", "Mystery"), ("los", "LineOfSight")):
        bad[k] = c.path(f"{k}.hdf5")
        write(bad[k], output_type=ot).close()
    bad["nounits"] = c.path("nounits.hdf5")
    h = write(bad["nounits"])
    del h["Units"]
    h.close()
    bad["nogroup"] = c.path("nogroup.hdf5")
    h = write(bad["nogroup"])
    del h["PartType1"]
    h.close()
    bad["nocode"] = c.path("nocode.hdf5")
    h = write(bad["nocode"])
    del h["Code"]
    h.close()
    bad["othercode"] = c.path("othercode.hdf5")
    h = write(bad["othercode"])
    h["Code"].attrs["Code"] = np.bytes_("GADGET")
    h.close()
    return good, bad


class Session:
    def __init__(self, c, sw, good, bad, rng, kind):
        self.c, self.sw, self.good, self.bad, self.rng = c, sw, good[kind], bad, rng
        self.kind, self.groups, self.fields = kind, GROUPS[kind], FIELDS[kind]
        self.uh = None
        self.objs = []
        self.steps = []
        self.base = left()
        self.nout = 0

    def close(self):
        if self.uh:
            self.uh.close()

    def make(self, op, src, obj, fail):
        sw, rng = self.sw, self.rng
        if op == "mask":
            self.objs.append(sw.mask(src))
        elif op == "validate":
            sw.validate_file(src)
        elif op == "load":
            # a constructor that raises leaves its handle to the traceback, `load` does not
            how = 2 if fail else rng.randrange(4)
            if how == 0 and isinstance(src, (str, pathlib.Path)):
                self.objs.append(sw.SWIFTDataset(src))
            elif how == 1 and not isinstance(src, (str, pathlib.Path)):
                self.objs.append(sw.SWIFTDataset(src.filename, handle=src))
            else:
                self.objs.append(sw.load(src))
        elif op == "loadmasked":
            self.objs.append(sw.load(src, mask=self.objs[obj - 1]))
        elif op == "parts":
            # the pieces `load` is made of, used on their own
            from swiftsimio.metadata import objects
            Meta = dict(snap=objects.SWIFTSnapshotMetadata, soap=objects.SWIFTSOAPMetadata, fof=objects.SWIFTFOFMetadata,
                        los=objects.SWIFTLineOfSightMetadata)[self.kind]
            if isinstance(src, (str, pathlib.Path)):
                u = sw.SWIFTUnits(src)
                m = Meta(src, u) if rng.random() < 0.5 else Meta(src)
                if self.kind in ("snap", "soap"):
                    sw.SWIFTMask(src, metadata=m)
            else:
                u = sw.SWIFTUnits(src.filename, handle=src)
                m = Meta(src.filename, u, handle=src)
                if self.kind in ("snap", "soap"):
                    sw.SWIFTMask(src.filename, metadata=m, handle=src)

    def use(self, op, o, e):
        sw, rng = self.sw, self.rng
        if op == "read":
            g = getattr(o, self.groups[e.get("g", 0)])
            for a in self.fields[e["f"]].split("."):
                g = getattr(g, a)
            assert np.size(g)
        elif op == "del":
            g, path = getattr(o, self.groups[0]), self.fields[e["f"]].split(".")
            for a in path[:-1]:
                g = getattr(g, a)
            delattr(g, path[-1])
        elif op == "constrain":
            q = lambda x: sw.cosmo_quantity(x, o.metadata.units.mass, comoving=True, scale_factor=o.metadata.a,
                                            scale_exponent=0)
            if e["fail"]:
                how = rng.randrange(3 if self.kind == "soap" else 4)
                gas = self.groups[0]
                if how == 0:
                    o.constrain_property(gas, "nothing", q(0), q(9))
                elif how == 1:
                    o.constrain_property(gas, "coordinates", q(0), q(9))
                elif how == 2:
                    o.constrain_property(gas, "masses", q(0).to("kg") * q(1), q(9))
                else:
                    o.constrain_indices([0])
            else:
                o.constrain_property(rng.choice(self.groups), "masses", q(0), q(9))
        elif op == "subset":
            self.nout += 1
            out = self.c.path(f"out{self.nout % 3}.hdf5")
            if e["fail"]:
                if not o.constrained and rng.random() < 0.5:
                    sw.subset_writer.write_subset(out, o)
                else:
                    sw.subset_writer.write_subset(self.c.path("no/such/dir/x.hdf5"), o, True)
            else:
                sw.subset_writer.write_subset(out, o, allow_unconstrained=True)
        elif op == "meta":
            md = o.metadata
            str(o), str(md), repr(getattr(o, self.groups[0])), md.code["Code"]
            for _ in range(2):
                md.present_groups, md.present_group_names, md.partial_snapshot
            for g, n in zip(md.present_groups, md.present_group_names):
                pr = getattr(md, f"{n}_properties")
                str(pr), md.get_nice_name(g), pr.field_names, pr.field_paths, pr.named_columns, pr.group_attributes
            for a in ("code_info", "compiler_info", "hydro_info", "library_info", "cosmology", "boxsize"):
                try:
                    getattr(md, a)
                except (KeyError, AttributeError, TypeError):
                    pass

    def do(self, e):
        r = dict(dict(fail=False), **e, left=0, uopen=False, opens=0, worked=True)
        extra = None
        OPENS["names"] = []
        try:
            if e["op"] == "uopen":
                self.uh = h5py.File(self.good, "r")
            elif e["op"] == "uclose":
                self.uh.close()
            elif "via" in e:
                src = self.good
                if e["fail"]:
                    kinds = {"load": ["unknown", "nounits", "nogroup"], "loadmasked": ["unknown", "nogroup"],
                             "mask": ["unknown", "nounits", "los", "nogroup"], "validate": ["nocode", "othercode"]}[e["op"]]
                    src = self.bad[self.rng.choice(kinds)]
                if e["via"] == "handle":
                    if e["fail"]:
                        extra = src = h5py.File(src, "r")
                    else:
                        src = self.uh
                elif self.rng.random() < 0.5:
                    src = pathlib.Path(src)
                OPENS["on"] = True
                self.make(e["op"], src, e.get("m", 0), e["fail"])
            else:
                OPENS["on"] = True
                self.use(e["op"], self.objs[e["o"] - 1], e)
        except Exception as ex:
            r["worked"] = False
            r["exc"] = repr(ex)
            OPENS["on"] = False
            r["left"] = left() - self.base - bool(self.uh) - bool(extra)
        OPENS["on"] = False
        if r["worked"]:
            r["left"] = left() - self.base - bool(self.uh) - bool(extra)
        r["uopen"] = bool(self.uh)
        if extra is not None:
            if not extra:  # closed a handle that was not its own
                r["uopen"] = not r["uopen"]
            else:
                extra.close()
        r["opens"] = sum("out" not in pathlib.Path(x).name and "x.hdf5" not in x for x in OPENS["names"])
        self.steps.append(r)
        return r


def replay(c, sw, recs, good, bad):
    out = []
    for r in recs:
        s = Session(c, sw, good, bad, c.rng, c.rng.choice(["snap", "snap", "soap"]))
        for e in r["steps"]:
            s.do(e)
        s.close()
        out.append(dict(steps=s.steps))
    return out


def random_sessions(c, sw, n, good, bad):
    rng, out = c.rng, []
    for _ in range(n):
        s = Session(c, sw, good, bad, rng, rng.choice(["snap", "snap", "soap", "fof", "los"]))
        kinds = []
        for _ in range(rng.choice([8, 15, 25])):
            op = rng.choice(["uopen", "uclose", "load", "load", "loadmasked", "mask", "mask", "validate", "parts",
                             "read", "read", "read", "read", "del", "constrain", "subset", "meta", "badread"])
            fail = rng.random() < 0.3
            data = [i + 1 for i, k in enumerate(kinds) if k == "data"]
            masks = [i + 1 for i, k in enumerate(kinds) if k == "mask"]
            e = dict(op=op, fail=False)
            if op == "uopen" and s.uh:
                continue
            if op == "uclose" and not s.uh:
                continue
            if op in ("load", "loadmasked", "mask", "validate", "parts"):
                e.update(via="handle" if s.uh and rng.random() < 0.6 else "path", fail=fail and op != "parts")
                if op == "mask" and s.kind in ("fof", "los"):
                    e["fail"] = True
                if op == "loadmasked":
                    if not masks:
                        continue
                    e["m"] = rng.choice(masks)
            elif op in ("read", "badread", "del", "meta"):
                if not data:
                    continue
                e.update(o=rng.choice(data), f=rng.choice([1, 2, 4]))
                if op == "badread":
                    e.update(op="read", f=3, fail=True)
                if op == "del":
                    if not any(st["op"] == "read" and st["o"] == e["o"] and st["f"] == e["f"] for st in s.steps):
                        continue
            elif op in ("constrain", "subset"):
                if not masks:
                    continue
                e.update(o=rng.choice(masks), f=0, fail=fail)
            n0 = len(s.objs)
            s.do(e)
            if len(s.objs) > n0:
                kinds.append("mask" if op == "mask" else "data")
        s.close()
        out.append(dict(steps=s.steps))
    return out


def body(c):
    import swiftsimio as sw

    instrument()
    base = dict(MaxObjs=3, MaxGen=2, MaxLen=99, Leaky=False, Emit=False)
    m = tlc.run("Handles", tlc.cfg_text(dict(base, MaxObjs=c.n(3, 4), MaxGen=c.n(2, 3)), spec="Spec",
                                        invariants=INV, view="View"), workers=8, timeout=1500)
    c.model(m, "Handles")
    bad = tlc.run("Handles", tlc.cfg_text(dict(base, Leaky=True), spec="Spec", invariants=INV, view="View"),
                  allow_violation=True)
    assert bad.violated == "NoneLeftOpen"
    m = tlc.run("Handles", tlc.cfg_text(dict(base, MaxObjs=2, MaxLen=c.n(5, 6), Emit=True), spec="Spec",
                                        invariants=INV + ["EmitCase"]), workers=8, timeout=1500, mem="6g")
    c.model(m, "Handles emit")
    recs = m.records
    c.count("model_histories", len(recs))
    good, broken = build(c)
    random_sessions(c, sw, 3, good, broken)
    k = c.n(2000, 40000)
    trace = fan(c, lambda c, n: replay(c, sw, c.rng.sample(recs, min(n, len(recs))), good, broken), k)
    trace += fan(c, lambda c, n: random_sessions(c, sw, n, good, broken), c.n(500, 10000))
    validate(c, "HandleTrace", trace, key="session")
    c.assumptions += ["handles are counted by HDF5's own list of open files; opens by wrapping h5py.File"]


if __name__ == "__main__":
    sys.exit(common.main("D02", body))
