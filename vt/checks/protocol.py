"""Shared driver of M03 and M05 (MaskOps/MaskProtocol/MaskImpl/MaskProtoTrace)."""

import h5py
import numpy as np

from vt import snap, tlc
from vt.checks.R02 import validate
from vt.remote import RemoteFile

S = 4.0  # cell size
SOAP_GROUPS = ["InputHalos", "BoundSubhalo", "SO/200_crit"]
SOAP_NICE = ["input_halos", "bound_subhalo", "spherical_overdensity_200_crit"]


def vals(v):
    v = np.array(v, dtype=float)
    return lambda rows: v[rows]


def make(path, w, ncell, disk, types):
    """A file holding the abstract world w (rows already in storage order)."""
    parts = {}
    for g, t in zip(w["groups"], types):
        parts[t] = [(c, (c * S + S / 2, 1.0, 1.0)) for c in g["cell"]]
        if w["kind"] == "soap":
            break
    world = snap.World((ncell, 1, 1), (S, S, S), disk, parts)
    if w["kind"] == "soap":
        names = SOAP_GROUPS[: len(w["groups"])]
        f = {n: {"Value": (vals(g["val"]), snap.fattrs(L=1.0, a=1.0), None)}
             for n, g in zip(names, w["groups"])}
        snap.soap(path, world, groups=names, fields=f, output_type=["SOAP", "SOAPSubset"][ncell % 2])
    else:
        f = {t: {"Value": (vals(g["val"]), snap.fattrs(L=1.0, a=1.0), None)}
             for t, g in zip(types, w["groups"])}
        snap.snapshot(path, world, fields=f, links=False,
                      has_type=[int(t in types) for t in range(7)])


def nice(w, types):
    return SOAP_NICE[: len(w["groups"])] if w["kind"] == "soap" else [snap.NAMES[t] for t in types]


def slots(w):
    return 1 if w["kind"] == "soap" else len(w["groups"])


def selection(msk, w, names):
    """The current selection, decoded from the public representation."""
    out, size = [], []
    for g in range(slots(w)):
        m = getattr(msk, names[g])
        if msk.range_mask:
            out.append([int(r) for a, b in m for r in range(a, b)])
            size.append(int(getattr(msk, f"{names[g]}_size")))
        else:
            out.append([int(i) for i in np.where(m)[0]])
            size.append(-1)
    return out, size


def region(sw, meta, cells, bad=False):
    L = meta.units.length
    q = lambda x: sw.cosmo_quantity(x, L, comoving=True, scale_factor=meta.a, scale_exponent=1)
    if bad:
        return [[q(-1e3), q(1.0)], None, None]
    return [[q(min(cells) * S + 0.5), q((max(cells) + 1) * S - 0.5)], None, None]


def call(sw, src, msk, w, names, cl, rng=None):
    """One call; returns rows read (for load)."""
    meta = msk.metadata
    q = lambda x: sw.cosmo_quantity(x, meta.units.length, comoving=True, scale_factor=meta.a,
                                    scale_exponent=1)
    op = cl["op"]
    if op == "spatial":
        if cl["bad"] and rng is not None and rng.random() < 0.5:
            msk.constrain_spatial([[q(0.0), q(1.0)], None], union=cl["union"])
        else:
            msk.constrain_spatial(region(sw, meta, cl["cells"], cl["bad"]), union=cl["union"])
    elif op == "property":
        if cl["bad"]:
            how = 0 if rng is None else rng.randrange(3)
            if how == 0:
                msk.constrain_property(names[cl["g"] - 1], "no_such_field", q(0), q(1))
            elif how == 1:
                msk.constrain_property("no_such_group", "value", q(0), q(1))
            else:
                import unyt

                kg = sw.cosmo_quantity(1.0, unyt.kg, comoving=True, scale_factor=meta.a, scale_exponent=1)
                msk.constrain_property(names[cl["g"] - 1], "value", kg, kg)
        else:
            msk.constrain_property(names[cl["g"] - 1], "value", q(float(cl["lo"])), q(float(cl["hi"])))
    elif op == "index":
        form = 0 if rng is None else rng.randrange(3)
        if len(cl["idx"]) == 1 and form != 1:
            msk.constrain_index(cl["idx"][0])
        elif form == 2:
            msk.constrain_indices(np.array(cl["idx"], dtype=int))
        else:
            msk.constrain_indices(list(cl["idx"]))
    elif op == "bool":
        msk.convert_masks_to_bool()
    elif op == "ranges":
        msk.convert_masks_to_ranges()
    elif op == "load":
        d = sw.load(src, mask=msk)
        out = []
        for g, nm in enumerate(names):
            grp = getattr(d, nm)
            ids = grp.row_index if w["kind"] == "soap" else grp.particle_ids
            out.append([int(x) % 1000 for x in np.asarray(ids)])
        return out
    return []


def replay_model(c, sw, clauses, keep=lambda rec: True, n=(1200, 40000)):
    m = tlc.run("MaskImpl", tlc.cfg_text(
        dict(Depth=99, Emit=False, Kinds='{"snap", "soap"}'), spec="Spec",
        invariants=["InRows", "SizeRight"], properties=["AbsSpec", "P1", "P2", "P3", "P4"]))
    c.model(m, "MaskImpl refines MaskProtocol")
    m = tlc.run("MaskImpl", tlc.cfg_text(
        dict(Depth=c.n(3, 4), Emit=True, Kinds='{"snap", "soap"}'), spec="Spec",
        invariants=["EmitCase"]))
    recs = [r for r in m.records if keep(r)]
    c.rng.shuffle(recs)
    paths = {}
    for r in recs[: c.n(*n)]:
        w = dict(kind=r["kind"], groups=r["groups"])
        if w["kind"] not in paths:
            paths[w["kind"]] = c.path(f"impl_{w['kind']}.hdf5")
            make(paths[w["kind"]], w, 3, [1, 0, 2], [0, 1])
        p = paths[w["kind"]]
        names = nice(w, [0, 1])
        msk = sw.mask(p)
        c.traces += 1
        for k, e in enumerate(r["hist"]):
            ok, rows, err = True, [], ""
            try:
                rows = call(sw, p, msk, w, names, e["call"])
            except Exception as ex:
                ok, err = False, repr(ex)
            sel, size = selection(msk, w, names)
            bad = None
            if ok != e["ok"]:
                bad = "accepted-when-allowed" if e["ok"] else "refused-when-not-allowed"
            elif sel != e["sel"]:
                bad = ("refused-call-changes-nothing" if not e["ok"] else
                       "representation-change-is-neutral" if e["call"]["op"] in ("bool", "ranges", "load")
                       else f"selection-after-{e['call']['op']}")
            elif msk.range_mask and size != [len(s) for s in e["sel"]]:
                bad = "size-of-range-mask"
            elif rows and rows != [e["sel"][0 if w["kind"] == "soap" else i] for i in range(len(names))]:
                bad = "rows-read-are-the-selection"
            if bad:
                if clauses(bad, e["call"]["op"]):
                    c.violation(f"replay-{w['kind']}", bad, hist=r["hist"][: k + 1], got=sel, size=size,
                                rows=rows, error=err)
                break
    c.sample(recs[0])


def random_trace(c, sw, it, kind, ops, remote_share=0.25):
    rng = c.rng
    nc = rng.choice([1, 2, 3, 5])
    disk = list(range(nc))
    rng.shuffle(disk)
    types = sorted(rng.sample([0, 1, 4, 5, 6], rng.choice([1, 2, 3]))) if kind == "snap" else [0]
    ng = len(types) if kind == "snap" else rng.choice([1, 2, 3])
    groups = []
    rowcell = None
    for g in range(ng):
        if rowcell is None or kind == "snap":
            rowcell = [cid for cid in disk for _ in range(rng.choice([0, 0, 1, 2, 7]))]
        groups.append(dict(cell=list(rowcell), val=[rng.randint(0, 4) for _ in rowcell]))
    w = dict(kind=kind, groups=groups)
    p = c.path(f"t{it}_{kind}.hdf5")
    make(p, w, nc, disk, types)
    remote = RemoteFile(p) if rng.random() < remote_share else None
    src = remote or p
    names = nice(w, types)
    ev = dict(op="history", w=w, steps=[], exc="", remote=remote is not None, disk=disk)
    try:
        msk = sw.mask(src)
        for _ in range(rng.randint(2, 9)):
            op = rng.choice(ops)
            cl = dict(op=op)
            if op == "spatial":
                a = rng.randrange(nc)
                b = min(nc - 1, a + rng.choice([0, 0, 1, 2]))
                cl.update(cells=list(range(a, b + 1)), union=rng.random() < 0.6, bad=rng.random() < 0.15)
            elif op == "property":
                lo = rng.randint(-1, 4)
                cl.update(g=rng.randint(1, ng), lo=lo, hi=lo + rng.choice([0, 1, 2, 4]), bad=rng.random() < 0.15)
            elif op == "index":
                n = len(groups[0]["cell"])
                cl.update(idx=rng.sample(range(n), rng.choice([0, 1, 1, n // 2, n]) if n else 0))
            ok, rows = True, []
            try:
                rows = call(sw, src, msk, w, names, cl, rng)
            except Exception:
                ok = False
            sel, size = selection(msk, w, names)
            ev["steps"].append(dict(call=cl, ok=ok, sel=sel, size=size, range=bool(msk.range_mask), rows=rows))
    except Exception as e:
        ev["exc"] = repr(e)
    if remote:
        remote.shut()
    return ev


def judge(c, trace, clauses):
    real = c.violation

    def only(key, clause, event=None, **d):
        ops = {s["call"]["op"] for s in event.get("steps", [])}
        if clauses(clause, "index" if "index" in ops else ""):
            real(key, clause, event=event, **d)

    c.violation = only
    try:
        validate(c, "MaskProtoTrace", trace,
                 keyf=lambda ev, cl: f"open-{ev['type']}" if ev["op"] == "open" else f"{ev['w']['kind']}{'-remote' if ev['remote'] else ''}")
    finally:
        c.violation = real


TYPES = ["FullVolume", "VolumeSubset", "SOAP", "SOAPSubset", "FOF", "FOFSubset", "LineOfSight"]


def opening(c, sw, it, outtype):
    """A mask made for a file of any kind, whole or one of several."""
    from vt.checks.meta import make_file
    rng = c.rng
    p = c.path(f"o{it}.hdf5")
    files = rng.choice([1, 1, 2, 16])
    n = 0
    if outtype in ("FOF", "FOFSubset", "LineOfSight"):
        make_file(p, rng, outtype)
    else:
        kind = "soap" if "SOAP" in outtype else "snap"
        nc = rng.choice([1, 2, 3])
        rows = [cid for cid in range(nc) for _ in range(rng.choice([0, 1, 4]))]
        n = len(rows)
        make(p, dict(kind=kind, groups=[dict(cell=rows, val=[0] * n)]), nc, list(range(nc)), [0])
    with h5py.File(p, "r+") as h:
        h["Header"].attrs["OutputType"] = np.bytes_(outtype)
        h["Header"].attrs["NumFilesPerSnapshot"] = np.array([files], dtype="i4")
    ev = dict(op="open", type=outtype, files=files, ok=True, exc="", rows=0, size=n, readable=True)
    handle = h5py.File(p, "r") if rng.random() < 0.3 else None
    try:
        msk = sw.mask(handle if handle is not None else p)
        g = msk.metadata.present_group_names[0]
        ev["rows"] = int(sum(b - a for a, b in getattr(msk, g)))
    except Exception as e:
        ev["ok"], ev["exc"] = False, repr(e)[:200]
    if handle is not None:
        ev["readable"] = bool(handle)
        if handle:
            handle.close()
    return ev
