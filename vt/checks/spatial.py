"""Shared driver of M01 and M02 (CellMask.tla, MaskTrace.tla)."""

import numpy as np

from vt import snap, tlc
from vt.common import fan
from vt.checks.R02 import validate

Q = 0.25  # file value of one lattice unit (exact in binary)


def region_rows(sw, meta, rows, form, rng):
    """Give the integer region in one of the forms the API accepts."""
    a = meta.a
    L = meta.units.length
    kw = dict(comoving=True, scale_factor=a, scale_exponent=1)
    val = [[b * Q for b in r] if r else None for r in rows]
    if form == "array" and all(val):
        return sw.cosmo_array(val, L, **kw)
    if form == "physical" and all(val):
        return sw.cosmo_array(np.array(val) * a, L, comoving=False, scale_factor=a, scale_exponent=1)
    if form == "kpc":
        return [None if v is None else sw.cosmo_array(np.array(v) * 1000.0, "kpc", **kw) for v in val]
    if form == "box":
        box = meta.boxsize
        return [None if v is None else [x / float(b.value) * b for x in v] for v, b in zip(val, box)]
    return [None if v is None else [sw.cosmo_quantity(x, L, **kw) for x in v] for v in val]


def got_rows(sw, src, msk, kind, worldparts):
    d = sw.load(src, mask=msk)
    out = []
    for t in worldparts:
        if kind == "soap":
            out.append([int(x) - 1000 for x in np.asarray(d.input_halos.row_index)])
        else:
            ids = getattr(d, snap.NAMES[t]).particle_ids
            out.append([int(x) - 1000 * (t + 1) for x in np.asarray(ids)])
    return out


def replay_model(c, sw, records, clauses):
    """Step the behaviours of CellMask through the real mask (one file per drift)."""
    rng = c.rng
    by = {}
    for r in records:
        by.setdefault((r["nc"], r["a"], r["b"]), {}).setdefault((r["l"], r["u"]), {})[r["cell"]] = r
    todo = [(k, lu) for k, v in by.items() for lu in v]
    rng.shuffle(todo)
    todo = sorted(todo[: c.n(400, 12000)])
    last, path, axis, S = None, None, 0, 4
    for (nc, a, b), (l, u) in todo:
        if last != (nc, a, b):
            last = (nc, a, b)
            axis = rng.randrange(3)
            dims = [1, 1, 1]
            dims[axis] = nc
            box = nc * S
            parts = []
            for cid in range(nc):
                for x in (cid * S - a, cid * S + S // 2, (cid + 1) * S + b):
                    pos = [S // 2] * 3
                    pos[axis] = x % box
                    parts.append((cid, tuple(pos)))
            disk = list(range(nc))
            rng.shuffle(disk)
            w = snap.World(tuple(dims), (S, S, S), disk, {0: parts}, scale=Q)
            # extents must be those of the model also when a drift exceeds half the box
            lo, hi = w.extents(0)
            for cid in range(nc):
                lo[cid, axis], hi[cid, axis] = cid * S - a, (cid + 1) * S + b
            w.extents = lambda t, lo=lo, hi=hi: (lo, hi)
            path = c.path(f"cm_{nc}_{a}_{b}.hdf5")
            snap.snapshot(path, w, bbox=True, links=False)
        recs = by[(nc, a, b)][(l, u)]
        msk = sw.mask(path)
        rows = [[], [], []]
        rows[axis] = [l, u]
        c.traces += 1
        refused = False
        try:
            msk.constrain_spatial(region_rows(sw, msk.metadata, rows, "quantities", rng))
        except ValueError:
            refused = True
        got = set(got_rows(sw, path, msk, "snap", [0])[0])
        key = f"model nc={nc} region=({l},{u})"
        if refused != recs[0]["refused"]:
            if "far-regions-refused" in clauses:
                c.violation(key, "far-regions-refused", case=recs[0], refused=refused)
            continue
        for cid, rec in recs.items():
            mine = {i for i, (q, _) in enumerate(w.parts[0]) if q == cid}
            has = mine & got
            if refused:
                bad = "refused-region-leaves-mask" if has != mine else None
            elif rec["must"] and not has:
                bad = "complete"
            elif has and has != mine:
                bad = "whole-cells"
            elif has and not rec["may"]:
                bad = "only-touching-cells"
            else:
                bad = None
            if bad in clauses or (bad == "whole-cells" and rec["must"] and "complete" in clauses):
                c.violation(key, bad, case=rec, rows=sorted(got))


def random_world(rng, kind):
    dims = rng.choice([(3, 1, 1), (1, 4, 1), (1, 1, 5), (2, 2, 2), (3, 3, 1), (3, 2, 2), (1, 1, 1), (2, 1, 3), (3, 3, 3)])
    size = rng.choice([(20, 20, 20), (20, 40, 20), (40, 20, 60)])
    n = dims[0] * dims[1] * dims[2]
    cells = [(i, j, k) for i in range(dims[0]) for j in range(dims[1]) for k in range(dims[2])]
    disk = list(range(n))
    if rng.random() < 0.7:
        rng.shuffle(disk)
    box = [d * s for d, s in zip(dims, size)]
    parts, drift = {}, {}
    types = [0] if kind == "soap" else sorted(rng.sample([0, 1, 4, 5], rng.choice([1, 2, 3])))
    pad = [s // 10 for s in size]
    for t in types:
        ps = []
        dr = 0 if kind == "soap" else rng.choice([0, 1, 2])
        for cid in rng.sample(range(n), rng.randint(max(1, n // 2), n)):
            for _ in range(rng.choice([1, 1, 2, 3])):
                pos = []
                for d in range(3):
                    lo, hi = cells[cid][d] * size[d], (cells[cid][d] + 1) * size[d] - 1
                    if dr == 1 and dims[d] > 2:  # small drifts, within padding
                        lo, hi = lo - pad[d], hi + 1 + pad[d]
                    elif dr == 2 and dims[d] > 2 and kind == "bbox":
                        far = min(size[d] + 9, box[d] // 2 - size[d] // 2 - 1)
                        lo, hi = lo - far, hi + far
                    pos.append(rng.randint(lo, hi) % box[d])
                ps.append((cid, tuple(pos)))
        parts[t] = ps
    return snap.World(dims, size, disk, parts, scale=Q)


def random_region(rng, box, size):
    """Bounds are often on or just beside the edges of cells (where padding or wrapping decides)."""
    rows = []
    for L, S in zip(box, size):
        def near(lo, hi):
            x = rng.randint(lo, hi)
            if rng.random() < 0.5:
                x = round(x / S) * S + rng.randint(-5, 5)
            return min(max(x, lo), hi)

        r = rng.random()
        if r < 0.3:
            rows.append([])
        elif r < 0.8:
            l = near(-L // 2, L)
            rows.append([l, near(l, min(l + L, 3 * L // 2)) if rng.random() < 0.7 else
                         min(l + rng.randint(0, 3 * S // 2), 3 * L // 2)])
        elif r < 0.95:  # inverted
            u = near(-L // 2, L)
            rows.append([near(u + 1, min(u + L, 3 * L // 2)), u])
        elif r < 0.975:
            rows.append([-L // 2 - rng.choice([1, 3, L]), rng.randint(0, L)])
        else:
            rows.append([rng.randint(0, L), 3 * L // 2 + rng.choice([1, 3, L])])
    return rows


def random_masks(c, n):
    import swiftsimio as sw

    rng = c.rng
    trace = []
    for it in range(n):
        kind = rng.choice(["bbox", "bbox", "pad", "soap"])
        w = random_world(rng, kind)
        p = c.path(f"w{it}.hdf5")
        padding = rng.choice([True, True, False, 0.5]) if kind == "pad" else True
        if kind == "soap":
            snap.soap(p, w, output_type=rng.choice(["SOAP", "SOAPSubset"]))
        else:
            snap.snapshot(p, w, bbox=kind == "bbox", legacy_offsets=rng.random() < 0.2,
                          links=False, output_type=rng.choice(["FullVolume", "VolumeSubset", None]), a=rng.choice([0.5, 1.0, 0.25]))
        frac = {True: 10, False: 0, 0.5: 2}[padding]
        groups = []
        for t in w.parts:
            ext = []
            lo, hi = w.extents(t)
            for cid, cell in enumerate(w.cells):
                e = []
                for d in range(3):
                    mn, mx = cell[d] * w.cell_size[d], (cell[d] + 1) * w.cell_size[d]
                    if kind == "bbox":
                        mn, mx = min(mn, int(np.floor(lo[cid, d]))), max(mx, int(np.ceil(hi[cid, d])))
                    elif kind == "pad" and frac:
                        mn, mx = mn - w.cell_size[d] // frac, mx + w.cell_size[d] // frac
                    e.append([mn, mx])
                ext.append(e)
            groups.append(dict(ext=ext, rowcell=[q for q, _ in w.parts[t]],
                               rowpos=[list(pos) for _, pos in w.parts[t]], got=[], t=t))
        within = kind != "pad" or all(
            within_ext(g["rowpos"][r], g["ext"][g["rowcell"][r]], w.box)
            for g in groups for r in range(len(g["rowcell"])))
        for _ in range(c.n(7, 12)):
            nreg = rng.choice([1, 1, 1, 2, 3])
            regions = [random_region(rng, w.box, w.cell_size) for _ in range(nreg)]
            form = rng.choice(["array", "physical", "kpc", "box", "quantities", "quantities"])
            if form in ("kpc", "physical", "box"):  # exact bounds only in the file's own units
                regions = [[[] if (r and (2 * max(r) >= 3 * L or 2 * min(r) <= -L)) else r
                            for r, L in zip(reg, w.box)] for reg in regions]
            ev = dict(op="spatial", L=w.box, regions=regions, refused=[], exc="", form=form, kind=kind,
                      groups=[dict(g) for g in groups])
            try:
                msk = sw.mask(p, safe_padding=padding)
                first = True
                for reg in regions:
                    r = region_rows(sw, msk.metadata, reg, form, rng)
                    try:
                        msk.constrain_spatial(r, union=not first or rng.random() < 0.3)
                        ev["refused"].append(False)
                        first = False
                    except ValueError:
                        ev["refused"].append(True)
                for g, rows in zip(ev["groups"], got_rows(sw, p, msk, kind, list(w.parts))):
                    g["got"] = rows
            except Exception as e:
                ev["exc"] = repr(e)
            if not within:  # drifted beyond the padding: completeness is not promised
                for g in ev["groups"]:
                    g["rowpos"] = [[w.cells[q][d] * w.cell_size[d] + w.cell_size[d] // 2
                                    for d in range(3)] for q in g["rowcell"]]
            trace.append(ev)
    return trace


def body(c, clauses):
    import swiftsimio as sw

    m = tlc.run("CellMask", tlc.cfg_text(
        dict(MaxCells=3, Size=4, Drift=2, Emit=True), spec="Spec",
        invariants=["Complete", "Precise", "UnwrapsOk", "EmitCase"]), coverage=True)
    c.model(m, "CellMask")
    c.sample(m.records[len(m.records) // 3])
    replay_model(c, sw, m.records, clauses)

    trace = fan(c, random_masks, c.n(90, 2400))
    validate_filtered(c, trace, clauses)
    c.assumptions += ["particle positions are consistent with the cell metadata of the file"]


def within_ext(pos, ext, box):
    return all(any(e[0] <= p + k * L <= e[1] for k in (-1, 0, 1)) for p, e, L in zip(pos, ext, box))


def validate_filtered(c, trace, clauses):
    class Proxy:
        """Keep only the clauses of this property."""

    real = c.violation

    def only(key, clause, **d):
        if clause in clauses:
            real(key, clause, **d)

    c.violation = only
    try:
        validate(c, "MaskTrace", trace, keyf=lambda ev, cl: f"{ev['kind']}:{ev['form']}")
    finally:
        c.violation = real
