"""R01: masked reads of whole datasets (MaskedRead.tla, RangeTrace.tla)."""

import sys

import numpy as np
import unyt

from vt import common, obs, snap, tlc
from vt.checks.R02 import validate
from vt.ranges import runs
from vt.remote import RemoteFile

K = 8
HUGE = 2**62
NAMED = {"ElementMassFractions": ["Hydrogen", "Helium", "Carbon"], "SpeciesFractions": ["HI", "HII", "HeII"]}


def enc(ncol=0, dtype="<f8"):
    def fn(rows):
        rows = np.asarray(rows)
        v = rows if ncol == 0 else rows[:, None] * K + np.arange(ncol)[None, :]
        return v.astype(dtype)

    return fn


def tensors(rows):
    """Two by two numbers per row."""
    rows = np.asarray(rows)
    return (rows[:, None, None] * K + np.arange(4).reshape(1, 2, 2)).astype("<f8")


def huge(rows):
    """Numbers that no floating-point number tells apart."""
    return (np.asarray(rows).astype("<u8") + np.uint64(HUGE)).astype("<u8")


def field_table(chunks, sels, n):
    """Fields of a gas group; sels: list of row sets, one selector field each."""
    ch = lambda i: chunks[i % len(chunks)] or None

    def tile(i, ncol, width):
        """Chunks that do not span all columns of a table."""
        c = ch(i)
        return c if c is None or i % 2 == 1 and len(chunks) > 2 else (c, min(width, ncol))

    f = {
        "Masses": (enc(0, "<f4"), snap.fattrs(M=1.0, desc="Masses"), ch(0)),
        "Velocities": (enc(3, "<f4"), snap.fattrs(L=1.0, t=-1.0, a=0.0), tile(1, 3, 2)),
        "Densities": (enc(0, "<f8"), snap.fattrs(M=1.0, L=-3.0, a=-3.0, comp="FMantissa9"), ch(2)),
        "Counters": (enc(0, "<i4"), snap.fattrs(), ch(3)),
        "BigEndian": (enc(0, ">f8"), snap.fattrs(T=1.0, a=-2.0), ch(0)),
        "OneColumn": (enc(1, "<f8"), snap.fattrs(L=2.0, a=2.0), ch(1)),
        "PhysicalSize": (enc(2, "<u8"), snap.fattrs(L=1.0, a=1.0, physical=True), tile(2, 2, 1)),
        "Frozen": (enc(0, "<f8"), snap.fattrs(M=1.0, a=-3.0, physical=True, convertible=False), ch(3)),
        "ElementMassFractions": (enc(3, "<f4"), snap.fattrs(), tile(0, 3, 1)),
        "SpeciesFractions": (enc(3, ">f4"), snap.fattrs(), tile(2, 3, 2)),
        "Tensors": (tensors, snap.fattrs(L=-1.0, a=-1.0), (ch(2), 2, 1 + len(chunks) % 2) if ch(2) else None),
        "HugeNumbers": (huge, snap.fattrs(), ch(3)),
    }
    for i, s in enumerate(sels):
        s = set(s)
        f[f"Select{i}"] = (
            (lambda s: lambda rows: np.array([1.0 if r in s else 0.0 for r in rows]))(s),
            snap.fattrs(), ch(i))
    return f


READS = ["masses", "velocities", "densities", "counters", "big_endian", "one_column",
         "physical_size", "frozen", "tensors", "huge_numbers", "coordinates", "particle_ids",
         "element_mass_fractions.hydrogen", "element_mass_fractions.carbon",
         "species_fractions.HII"]


def get(group, path):
    for p in path.split("."):
        group = getattr(group, p)
    return group


def rows_of(x, name, ptype):
    v = obs.values(x)
    if name == "particle_ids":
        return [int(q) for q in v - 1000 * (ptype + 1)], True
    if name == "coordinates":
        return [int(q) for q in v[:, 0]], True
    if "." in name:
        col = {"hydrogen": 0, "carbon": 2, "HII": 1}[name.split(".")[1]]
        return [int(q) for q in v // K], v.ndim == 1 and bool((v % K == col).all())
    if name == "huge_numbers":
        return [int(q) - HUGE for q in v], v.dtype == np.dtype("u8")
    if v.ndim == 3:
        return [int(q) for q in v[:, 0, 0] // K], bool((v - v[:, :1, :1] == np.arange(4).reshape(1, 2, 2)).all())
    if v.ndim == 2:
        return [int(q) for q in v[:, 0] // K], bool((v - v[:, :1] == np.arange(v.shape[1])).all())
    return [int(q) for q in v], True


def line_world(n, ptypes=(0,)):
    """n rows per type in one cell; Coordinates x = row (box large enough)."""
    L = float(max(n, 1) + 1)
    return snap.World((1, 1, 1), (L, L, L), [0], {t: [(0, (float(i), 0.5, 0.5)) for i in range(n)]
                                                   for t in ptypes})


def observe(c, trace, data, full, group, ptype, rs, names=READS, tag=""):
    """Read fields through the mask and log one event per field."""
    for name in names:
        ev = dict(op="field", field=name, rs=rs, runs=[], bad=[], exc="", tag=tag)
        try:
            x = get(getattr(data, group), name)
            y = get(getattr(full, group), name)
            if x is None or y is None:
                raise RuntimeError("field could not be read")
            rows, ok = rows_of(x, name, ptype)
            ev["runs"] = runs(rows)
            if not ok:
                ev["bad"].append("columns-have-their-meaning")
            ax, ay = obs.attrs_of(x), obs.attrs_of(y)
            size = sum(b - a for a, b in rs)
            if ax["shape"] != [size] + ay["shape"][1:]:
                ev["bad"].append("trailing-shape")
            for k in ("type", "units", "a", "expr", "comoving", "valid_transform", "compression", "dtype"):
                if ax[k] != ay[k]:
                    ev["bad"].append(f"same-{k}-as-unmasked")
            idx = [r for a, b in rs for r in range(a, b)]
            if ax["shape"][0] == size and not np.array_equal(obs.values(x), obs.values(y)[idx]):
                ev["bad"].append("same-values-as-unmasked")
        except Exception as e:
            ev["exc"] = repr(e)
        trace.append(ev)


def one(q):
    return unyt.unyt_quantity(q, "dimensionless")


def body(c):
    import swiftsimio as sw

    m = tlc.run("MaskedRead", tlc.cfg_text(
        dict(MaxN=c.n(4, 6), MaxC=c.n(3, 5), Emit=True), spec="Spec",
        invariants=["Selected", "SizeRight", "Aligned", "EmitCase"]), coverage=True)
    c.model(m, "MaskedRead")

    def bound(meta, v):
        return sw.cosmo_quantity(v, "dimensionless", comoving=True, scale_factor=meta.a,
                                 scale_exponent=0)

    # ---- replay every behaviour of the model on a file of that layout -------
    files = {}
    for rec in m.records:
        files.setdefault((rec["n"], rec["chunk"]["f"], rec["chunk"]["g"]), []).append(rec)
    trace = []
    for (n, cf, cg), recs in files.items():
        p = c.path(f"m{n}_{cf}_{cg}.hdf5")
        snap.snapshot(p, line_world(n), fields={0: field_table([cf, cg], [r["sel"] for r in recs], n)},
                      chunk=cf or None, named=NAMED, has_type=[1] + [0] * 6)
        full = sw.load(p)
        for i, rec in enumerate(recs):
            c.traces += 1
            msk = sw.mask(p)
            msk.constrain_property("gas", f"select{i}", bound(msk.metadata, 0.5), bound(msk.metadata, 1.5))
            d = sw.load(p, mask=msk)
            if int(msk.gas_size) != rec["size"]:
                c.violation("size", "mask-size", case=rec, got=int(msk.gas_size))
            rs = [[a, a + 1] for a in rec["out"]]
            names = [READS[(i + k) % len(READS)] for k in range(4)]
            observe(c, trace, d, full, "gas", 0, rs, names=names, tag="replay")
    c.sample(m.records[-1])

    # ---- recorded random executions ----------------------------------------
    rng = c.rng
    for it in range(c.n(14, 120)):
        n = rng.choice([1, 2, 9, 30, 130, 400])
        sels = []
        for _ in range(4):
            k = rng.random()
            if k < 0.2:
                s = rng.sample(range(n), rng.randint(0, n))
            elif k < 0.4:
                s = [i for i in range(n) if i % rng.choice([2, 3]) == 0]
            else:
                cuts = sorted(rng.randint(0, n) for _ in range(2 * rng.randint(1, 5)))
                s = [x for j in range(len(cuts) // 2) for x in range(cuts[2 * j], cuts[2 * j + 1])]
            sels.append(sorted(s))
        sels += [[], list(range(n))]
        chunks = [rng.choice([0, 1, 4, 7, 32, 128, 1000]) for _ in range(4)]
        p = c.path(f"r{it}.hdf5")
        t2 = rng.choice([1, 4, 5])
        snap.snapshot(p, line_world(n, (0, t2)),
                      fields={t: field_table(chunks, sels, n) for t in (0, t2)},
                      chunk=chunks[0] or None, named=NAMED)
        full = sw.load(p)
        g2 = snap.NAMES[t2]
        for i, s in enumerate(sels):
            remote = RemoteFile(p) if rng.random() < 0.3 else None
            src = remote or p
            msk = sw.mask(src)
            b = lambda v: bound(msk.metadata, v)
            who = rng.choice(["gas", g2])
            msk.constrain_property(who, f"select{i}", b(0.5), b(1.5))
            d = sw.load(src, mask=msk)
            everything = [[0, n]]
            for g, t in (("gas", 0), (g2, t2)):
                rs = [[r, r + 1] for r in s] if g == who else everything
                observe(c, trace, d, full, g, t, rs, names=rng.sample(READS, 7),
                        tag="remote" if remote else "local")
            if remote:
                remote.shut()
    # spatial masks: ranges straight from cells, scattered storage order, empty selections
    for it in range(c.n(10, 80)):
        nc = rng.choice([2, 3, 5])
        disk = list(range(nc))
        rng.shuffle(disk)
        parts = {}
        for t in (0, 1):
            parts[t] = [(cid, (cid * 2.0 + 1.0, 0.5, 0.5)) for cid in range(nc)
                        for _ in range(rng.choice([0, 0, 1, 3, 20]))]
        w = snap.World((nc, 1, 1), (2.0, 2.0, 2.0), disk, parts)
        p = c.path(f"s{it}.hdf5")
        ch = rng.choice([0, 2, 5])
        f = lambda t: {k: v for k, v in field_table([ch], [], 0).items()}
        snap.snapshot(p, w, fields={0: f(0), 1: f(1)}, chunk=ch or None, named=NAMED,
                      has_type=[1, 1] + [0] * 5)
        full = sw.load(p)
        remote = RemoteFile(p) if rng.random() < 0.4 else None
        src = remote or p
        msk = sw.mask(src)
        lo, hi = rng.choice([(0.0, 1.9), (2.1, 3.9), (0.5, 2.5), (2.0 * nc - 1.9, 2.0 * nc - 0.1), (0.0, 2.0 * nc),
                             (2.0, 2.0)])
        box = msk.metadata.boxsize
        msk.constrain_spatial([[lo / (2.0 * nc) * box[0], hi / (2.0 * nc) * box[0]], None, None])
        cells = [cid for cid in range(nc) if lo < 2 * cid + 2 and hi > 2 * cid]
        d = sw.load(src, mask=msk)
        for g, t in (("gas", 0), ("dark_matter", 1)):
            rs = [[i, i + 1] for i, (cid, _) in enumerate(w.parts[t]) if cid in cells]
            observe(c, trace, d, full, g, t, rs, names=[x for x in rng.sample(READS, 6) if x != "coordinates"],
                    tag=("remote-" if remote else "local-") + ("empty" if not rs else "some"))
        if remote:
            remote.shut()
    validate(c, "RangeTrace", trace, keyf=lambda ev, cl: f"{ev['tag']}:{ev['field']}")
    c.assumptions += ["synthetic snapshots written with h5py by the harness",
                      "remote files are a stand-in with hdfstream's slice rules"]


if __name__ == "__main__":
    sys.exit(common.main("R01", body))
