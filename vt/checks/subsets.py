"""Shared driver of S01 and S02 (SubsetOps/Subset/SubsetTrace)."""

import h5py
import numpy as np

from vt import snap, tlc
from vt.common import fan
from vt.checks.R01 import HUGE, K, NAMED, field_table
from vt.checks.R02 import validate
from vt.checks.protocol import SOAP_GROUPS
from vt.ranges import runs

S = 4.0
EXEMPT = {"NumPart_ThisFile", "OutputType", "NumSubhalos_ThisFile", "NumberOfParticles"}


def digest(v):
    a = np.asarray(v)
    k = a.dtype.str.lstrip("<>|=") if a.dtype.kind in "iufb" else "text"
    x = a.tolist()
    if isinstance(x, list):
        x = [y.decode() if isinstance(y, bytes) else y for y in np.ravel(np.array(x, dtype=object)).tolist()]
    elif isinstance(x, bytes):
        x = x.decode()
    return f"{k}{list(a.shape)}{x}"[:300]


def items(h, masked):
    """Inventory of a file, without the rows of masked datasets and cell tables."""
    out = []

    def attrs(path, o):
        for k, v in o.attrs.items():
            if k not in EXEMPT:
                out.append(f"attr {path}@{k}={digest(v)}")

    def walk(path, g):
        attrs(path or "/", g)
        for k in g:
            p = f"{path}/{k}"
            link = g.get(k, getlink=True)
            if isinstance(link, h5py.SoftLink):
                out.append(f"link {p}->{link.path}")
                continue
            o = g[k]
            if isinstance(o, h5py.Dataset):
                if p in masked:
                    out.append(f"masked {p} {o.dtype.str.lstrip('<>|=')} {list(o.shape[1:])}")
                    attrs(p, o)
                elif p.startswith("/Cells/"):
                    out.append(f"celldata {p}")
                else:
                    out.append(f"data {p} {digest(o[...])}")
                    attrs(p, o)
            else:
                out.append(f"group {p}")
                walk(p, o)

    walk("", h)
    return sorted(set(out))


def decode(path, v, t):
    """Row identities from the values of a masked dataset (None: wrong content)."""
    v = np.asarray(v)
    name = path.rsplit("/", 1)[1]
    if name in ("ParticleIDs", "RowIndex"):
        return v - 1000 * (t + 1)
    if name in ("Coordinates", "HaloCentre"):
        return v[:, 1]
    if name == "HugeNumbers":
        return np.array([int(q) - HUGE for q in v], dtype=int)
    if v.ndim == 3:
        ok = (v - v[:, :1, :1] == np.arange(4).reshape(1, 2, 2)).all() and v.shape[1:] == (2, 2)
        return v[:, 0, 0] // K if ok else np.full(len(v), -7)
    if v.ndim == 2:
        ok = (v - v[:, :1] == np.arange(v.shape[1])).all()
        return v[:, 0] // K if ok else np.full(len(v), -7)
    return v


class Doc:
    """One file under test: kind, groups in the file, their datasets."""

    def __init__(self, kind, ncell, disk, rowcells, types, names):
        self.kind, self.ncell, self.disk = kind, ncell, disk
        self.rowcells = rowcells  # per group: cell of each row identity
        self.types = types  # encoding offsets
        self.names = names  # hdf5 names
        self.cellnames = ["Subhalos"] * len(names) if kind == "soap" else names

    def nice(self):
        from vt.checks.protocol import SOAP_NICE

        if self.kind == "soap":
            return [SOAP_NICE[SOAP_GROUPS.index(n)] for n in self.names]
        return [snap.NAMES[t] for t in self.types]

    def datasets(self, h):
        res = []
        for g, n in enumerate(self.names):
            if n in h:
                for k in h[n]:
                    if isinstance(h[n].get(k, getlink=True), h5py.HardLink) and isinstance(h[n][k], h5py.Dataset):
                        res.append((g, f"/{n}/{k}"))
        return res

    def abstract(self, h):
        off = "Offsets" if "Offsets" in h["Cells"] else "OffsetsInFile"
        rows = []
        for n, t in zip(self.names, self.types):
            k = f"{n}/RowIndex" if self.kind == "soap" else f"{n}/ParticleIDs"
            rows.append([int(x) - 1000 * (t + 1) for x in h[k][...]])
        return dict(centre=[int(x // S) for x in h["Cells/Centres"][:, 0]],
                    counts=[[int(x) for x in h[f"Cells/Counts/{n}"][...]] for n in self.cellnames],
                    offs=[[int(x) for x in h[f"Cells/{off}/{n}"][...]] for n in self.cellnames],
                    rows=rows)

    def extents(self, h):
        out = []
        for n in self.cellnames:
            if "MinPositions" in h["Cells"]:
                out.append({int(c // S): (tuple(a), tuple(b)) for c, a, b in zip(
                    h["Cells/Centres"][:, 0], h[f"Cells/MinPositions/{n}"][...], h[f"Cells/MaxPositions/{n}"][...])})
            else:
                out.append({int(c[0] // S): tuple(c) for c in h["Cells/Centres"][...]})
        return out

    def header(self, h):
        if self.kind == "soap":
            return [int(h["Header"].attrs["NumSubhalos_ThisFile"][0])] * len(self.names)
        return [int(h["Header"].attrs["NumPart_ThisFile"][t]) for t in self.types]


def build(path, doc, rng=None, bbox=True, rich=False, chunk=None, has_type=True, legacy=False):
    n = [len(x) for x in doc.rowcells]
    H = float(max(n + [1]) + 1)
    parts = {}
    for rc, t in zip(doc.rowcells, doc.types):
        parts[t] = [(c, (c * S + S / 2, float(i), 0.5)) for i, c in enumerate(rc)]
        if doc.kind == "soap":
            break
    w = snap.World((doc.ncell, 1, 1), (S, H, 1.0), doc.disk, parts)
    table = {}
    for g, t in enumerate(doc.types):
        f = field_table([chunk, None, chunk and chunk + 3], [], n[g])
        if rng is not None:
            keep = rng.sample(sorted(f), 4)
            f = {k: f[k] for k in keep}
        f["Value"] = (lambda rows: np.asarray(rows, dtype="f8"), snap.fattrs(), chunk)
        table[doc.names[g] if doc.kind == "soap" else t] = f
    h = h5py.File(path, "w")
    if doc.kind == "soap":
        snap.soap(h, w, groups=doc.names, fields=table, chunk=chunk)
    else:
        ht = [int(t in doc.types) for t in range(7)] if has_type else None
        snap.snapshot(h, w, fields=table, bbox=bbox, chunk=chunk, links=True, named=NAMED, has_type=ht,
                      legacy_offsets=legacy)
    if rich:
        a = doc.names[0]
        h[a].attrs["NumberOfParticles"] = np.array([n[0]])
        h[a].attrs["Note"] = np.bytes_("kept")
        h.attrs["Kind"] = "root attribute"
        e = h.create_group("Extras")
        e.attrs["When"] = 3
        e["Table"] = np.arange(6).reshape(2, 3)
        e["Table"].attrs["unit"] = np.bytes_("none")
        e.create_group("Deep")["alias"] = h5py.SoftLink("/Units")
        e["Deep"]["table"] = h5py.SoftLink("../Table")
        e["OfRows"] = np.arange(n[0], dtype="f4")  # as long as a masked dataset, but not one
        h.create_group("MyCellsTable").attrs["x"] = 1.5
        h.create_group("PartTypeNamesList")["names"] = np.array([b"a", b"bc"])
        v = [k for k in h[a] if k != "RowIndex" and k != "ParticleIDs"][0]
        h[f"{a}/CellsVisited"] = np.asarray(np.arange(n[0]), dtype="i4")
        snap_attrs = snap.fattrs(desc="with a tricky name")
        for k, x in snap_attrs.items():
            h[f"{a}/CellsVisited"].attrs[k] = x
        h[f"{a}/Mirror"] = h5py.SoftLink(f"/{a}/{v}")
        h["Everything"] = h5py.SoftLink(f"/{a}")
        h["Cosmology"]["Times"] = np.linspace(0, 1, 5)
    h.close()
    return w


def selected(msk, doc, size_of):
    """Positions selected in the current file, per group (decoded from the mask)."""
    out = []
    for g, nm in enumerate(doc.nice()):
        m = getattr(msk, nm, None)
        if m is None:
            out.append([])
        elif msk.range_mask:
            out.append([int(r) for a, b in m for r in range(a, b)])
        else:
            out.append([int(i) for i in np.where(m)[0]])
    return out


def cells_region(sw, meta, lo, hi):
    q = lambda x: sw.cosmo_quantity(x, meta.units.length, comoving=True, scale_factor=meta.a, scale_exponent=1)
    return [[q(lo * S + 0.5), q((hi + 1) * S - 0.5)], None, None]


def write_once(sw, src, dst, doc, constrain, regions, rng=None, allow=False, cellof=None):
    """One subset write, observed completely."""
    ev = dict(op="write", exc="", sel=[], before={}, after=dict(centre=[], counts=[], offs=[], rows=[]),
              header=[], extents=[], datasets=[], before_items=[], after_items=[], regions=[],
              cellof=doc.rowcells, kind=doc.kind)
    with h5py.File(src, "r") as h:
        ev["before"] = doc.abstract(h)
        masked = {p for _, p in doc.datasets(h)}
        ev["before_items"] = items(h, masked)
        ext0 = doc.extents(h)
    try:
        msk = sw.mask(src)
        constrain(msk)
        ev["sel"] = selected(msk, doc, None)
        sw.subset_writer.write_subset(dst, msk, **(dict(allow_unconstrained=True) if allow else {}))
    except Exception as e:
        import traceback

        ev["exc"] = repr(e) + traceback.format_exc()[-300:]
        return ev
    with h5py.File(dst, "r") as h:
        try:
            ev["after"] = doc.abstract(h)
            ev["header"] = doc.header(h)
            ext1 = doc.extents(h)
            ev["extents"] = [a == b for a, b in zip(ext0, ext1)]
            ev["after_items"] = items(h, masked)
            for g, p in sorted({(g, p) for g, p in doc.datasets(h)} |
                               {(g, p) for g, n in enumerate(doc.names) for p in masked if p.startswith(f"/{n}/")
                                and "/" not in p[len(n) + 2:]}):
                # identities of the rows before are those of ev["before"]
                if p in h:
                    ids = [int(x) for x in decode(p, h[p][...], doc.types[g])]
                    pos = {r: i for i, r in enumerate(ev["before"]["rows"][g])}
                    ev["datasets"].append(dict(g=g + 1, path=p, runs=runs([pos.get(r, -1) for r in ids])))
        except Exception as e:
            ev["exc"] = "subset is incomplete: " + repr(e)
            return ev
    for lo, hi in regions:
        r = dict(cells=list(range(lo, hi + 1)), rows=[])
        try:
            m2 = sw.mask(dst)
            m2.constrain_spatial(cells_region(sw, m2.metadata, lo, hi))
            d = sw.load(dst, mask=m2)
            for nm, t in zip(doc.nice(), doc.types):
                grp = getattr(d, nm, None)
                if grp is None:
                    r["rows"].append([])
                    continue
                ids = grp.row_index if doc.kind == "soap" else grp.particle_ids
                r["rows"].append([int(x) - 1000 * (t + 1) for x in np.asarray(ids)])
        except Exception as e:
            ev["exc"] = "mask on subset: " + repr(e)
            return ev
        ev["regions"].append(r)
    return ev


def replay_model(c, sw, n):
    """TLC's subset-of-subset behaviours on files of that layout."""
    random_traces(c, sw, 2, 0.5)  # compile before forking
    m = tlc.run("Subset", tlc.cfg_text(dict(NC=3, MaxA=2, MaxB=1, Emit=False), spec="Spec",
                                       invariants=["Describes", "CellsKept", "Composes"]), workers=8, timeout=800)
    c.model(m, "Subset NC=3")
    m = tlc.run("Subset", tlc.cfg_text(dict(NC=c.n(2, 3), MaxA=c.n(2, 1), MaxB=1, Emit=True), spec="Spec",
                                       invariants=["Describes", "CellsKept", "Composes", "EmitCase"]), timeout=800)
    c.model(m, "Subset emit")
    recs = list(m.records)
    c.sample(recs[0])
    c.rng.shuffle(recs)

    def replay(c, k):
        return replay_some(c, sw, c.rng.sample(recs, min(k, len(recs))))

    return fan(c, replay, n)


def replay_some(c, sw, recs):
    trace = []
    for i, r in enumerate(recs):
        cell = lambda x: x % 10 - 1
        doc = Doc("snap", len(r["disk"]), [d - 1 for d in r["disk"]],
                  [[cell(x) for x in rows] for rows in r["f0"]["rows"]], [0, 1], ["PartType0", "PartType1"])
        p, q1, q2 = c.path("m0.hdf5"), c.path("m1.hdf5"), c.path("m2.hdf5")
        build(p, doc, bbox=i % 2 == 0, rng=c.rng)
        s1, s2 = r["s1"], r["s2"]

        def by_cells(cells):
            def f(msk):
                if not cells:
                    q = lambda x: sw.cosmo_quantity(x, msk.metadata.units.length, comoving=True,
                                                    scale_factor=msk.metadata.a, scale_exponent=1)
                    msk.constrain_spatial([[q(0.5), q(1.0)], None, None])
                    msk.constrain_property("gas", "value", one(sw, msk, -2.0), one(sw, msk, -1.0))
                    msk.constrain_property("dark_matter", "value", one(sw, msk, -2.0), one(sw, msk, -1.0))
                    return
                for k in cells:
                    msk.constrain_spatial(cells_region(sw, msk.metadata, k - 1, k - 1), union=True)
            return f

        def by_rows(msk):
            keep = set(s1["set"])
            n0 = len(doc.rowcells[0])
            # rows as a property window when contiguous, else through the boolean mask
            msk.convert_masks_to_bool()
            msk.constrain_property("gas", "value", one(sw, msk, -1.0), one(sw, msk, float(n0)))
            if n0:
                msk.gas[[k for k in range(n0) if k not in keep]] = False

        has = lambda: None
        if s1["kind"] == "rows" and not doc.rowcells[0]:
            continue
        ev1 = write_once(sw, p, q1, doc, by_rows if s1["kind"] == "rows" else by_cells(s1["set"]), [])
        trace.append(ev1)
        if not ev1["exc"]:
            ev2 = write_once(sw, q1, q2, doc, by_cells(s2), [(0, 0)])
            trace.append(ev2)
            if not ev2["exc"]:
                want = [[rows.index(x) for x in out] for rows, out in zip(r["f0"]["rows"], r["file"]["rows"])]
                if ev2["after"]["rows"] != want:
                    c.violation("replay", "subset-of-subset-composes", case=r, got=ev2["after"])
        c.traces += 1
    return trace


def one(sw, msk, v):
    return sw.cosmo_quantity(v, "dimensionless", comoving=True, scale_factor=msk.metadata.a, scale_exponent=0)


def random_traces(c, sw, n, rich_share):
    rng = c.rng
    trace = []
    for it in range(n):
        kind = rng.choice(["snap", "snap", "soap"])
        nc = rng.choice([1, 2, 4, 6])
        disk = list(range(nc))
        if rng.random() < 0.7:
            rng.shuffle(disk)
        if kind == "snap":
            types = sorted(rng.sample([0, 1, 4, 5, 6], rng.choice([1, 2, 3])))
            names = [f"PartType{t}" for t in types]
            rc = [[cid for cid in disk for _ in range(rng.choice([0, 0, 1, 2, 9]))] for _ in types]
            for x in rc:
                if not x:
                    x.append(disk[0])
        else:
            names = SOAP_GROUPS[: rng.choice([1, 2, 3])]
            types = list(range(len(names)))
            x = [cid for cid in disk for _ in range(rng.choice([0, 1, 2, 9]))] or [disk[0]]
            rc = [list(x) for _ in names]
        doc = Doc(kind, nc, disk, rc, types, names)
        src = c.path(f"r{it}_0.hdf5")
        build(src, doc, rng=rng, bbox=rng.random() < 0.6, rich=rng.random() < rich_share,
              chunk=rng.choice([None, None, 3, 16]), has_type=rng.random() < 0.7, legacy=rng.random() < 0.2)
        if rng.random() < 0.3:
            ev = dict(op="refuse", exc="")
            try:
                m = sw.mask(src)
                if rng.random() < 0.5:
                    m.convert_masks_to_bool()
                sw.subset_writer.write_subset(c.path("refused.hdf5"), m)
            except ValueError as e:
                ev["exc"] = repr(e)
            except Exception as e:
                ev["exc"] = ""
                ev["other"] = repr(e)
            trace.append(ev)
        for depth in range(rng.choice([1, 2, 3])):
            dst = c.path(f"r{it}_{depth + 1}.hdf5")
            allow = rng.random() < 0.15

            def constrain(msk):
                if allow:
                    return
                how = rng.choice(["spatial", "spatial", "union", "property", "both", "index"])
                if how in ("spatial", "both", "union"):
                    a = rng.randrange(nc)
                    msk.constrain_spatial(cells_region(sw, msk.metadata, a, min(nc - 1, a + rng.choice([0, 1, 3]))))
                if how == "union":
                    if rng.random() < 0.3:
                        msk.convert_masks_to_bool()
                    a = rng.randrange(nc)
                    msk.constrain_spatial(cells_region(sw, msk.metadata, a, a), union=True)
                if how == "index" and kind == "soap":
                    n = int(msk.metadata.n_subhalos)
                    msk.constrain_indices(rng.sample(range(n), rng.randint(0, n)) if n else [])
                elif how in ("property", "both", "index"):
                    present = [x for x in doc.nice() if hasattr(msk, x)]
                    for x in rng.sample(present, rng.randint(1, len(present))):
                        lo = rng.uniform(-1, 12)
                        msk.constrain_property(x, "value", one(sw, msk, lo), one(sw, msk, lo + rng.choice([0.5, 4, 30])))

            a = rng.randrange(nc)
            regions = [(a, min(nc - 1, a + rng.choice([0, 1])))]
            if rng.random() < 0.2:
                regions.append((0, nc - 1))
            ev = write_once(sw, src, dst, doc, constrain, regions, rng, allow)
            trace.append(ev)
            if ev["exc"]:
                break
            src = dst
            doc.names and None
            if kind == "snap" and all(not r for r in ev["after"]["rows"]):
                break
    return trace


def judge(c, trace, clauses):
    real = c.violation

    def only(key, clause, event=None, **d):
        if clause in clauses or clause in ("write-succeeds", "rows-are-the-selected-ones"):
            if event and event["op"] == "write":
                b, a = set(event["before_items"]), set(event["after_items"])
                d.update(lost=sorted(b - a)[:8], added=sorted(a - b)[:8])
                event = {k: v for k, v in event.items() if not k.endswith("_items")}
            real(key, clause, **d, event=event)

    c.violation = only
    try:
        validate(c, "SubsetTrace", trace, keyf=lambda ev, cl: ev.get("kind", ev["op"]))
    finally:
        c.violation = real
