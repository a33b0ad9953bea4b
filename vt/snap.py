"""Synthetic SWIFT snapshots and SOAP catalogues with fully controlled content."""

import h5py
import numpy as np

MPC, MSUN10, GYRV = 3.08567758149e24, 1.98841586e43, 3.08567758149e19
UNITS = {
    "Unit mass in cgs (U_M)": MSUN10,
    "Unit length in cgs (U_L)": MPC,
    "Unit time in cgs (U_t)": GYRV,
    "Unit current in cgs (U_I)": 1.0,
    "Unit temperature in cgs (U_T)": 1.0,
}
NAMES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos"]


def fattrs(L=0.0, M=0.0, t=0.0, T=0.0, I=0.0, a=0.0, physical=None, convertible=None,
           desc="a field", comp="None"):
    """Attributes of a SWIFT dataset."""
    d = {
        "U_L exponent": [L], "U_M exponent": [M], "U_t exponent": [t], "U_T exponent": [T],
        "U_I exponent": [I], "a-scale exponent": [a], "h-scale exponent": [0.0],
        "Description": np.bytes_(desc), "Lossy compression filter": np.bytes_(comp),
        "Conversion factor to CGS (not including cosmological corrections)": [1.0],
    }
    if physical is not None:
        d["Value stored as physical"] = np.array([int(physical)], dtype="i4")
    if convertible is not None:
        d["Property can be converted to comoving"] = np.array([int(convertible)], dtype="i4")
    return d


COORD = fattrs(L=1.0, a=1.0, desc="Co-moving positions", comp="DScale6")


def put(h, path, data, attrs, chunk=None):
    data = np.asarray(data)
    kw = {}
    if isinstance(chunk, tuple):
        kw = dict(chunks=chunk, maxshape=(None,) + data.shape[1:])
    elif chunk:
        kw = dict(chunks=(chunk,) + data.shape[1:], maxshape=(None,) + data.shape[1:])
    ds = h.create_dataset(path, data=data, **kw)
    for k, v in attrs.items():
        ds.attrs[k] = v
    return ds


def header(h, *, a=0.5, L=(8.0, 8.0, 8.0), num=(0,) * 7, output_type="FullVolume", extra=None,
           units=None, has_type=None):
    g = h.create_group("Header")
    g.attrs["BoxSize"] = np.array(L, dtype=float)
    g.attrs["NumPart_ThisFile"] = np.array(num, dtype="i8")
    g.attrs["NumPart_Total"] = np.array(num, dtype="u4")
    g.attrs["NumPart_Total_HighWord"] = np.zeros(7, dtype="u4")
    if has_type is not None:
        g.attrs["CanHaveTypes"] = np.array(has_type, dtype="i4")
    g.attrs["NumFilesPerSnapshot"] = np.array([1], dtype="i4")
    g.attrs["MassTable"] = np.zeros(7)
    g.attrs["Time"] = np.array([0.25])
    g.attrs["Dimension"] = np.array([3], dtype="i4")
    g.attrs["Redshift"] = np.array([1.0 / a - 1.0])
    g.attrs["Scale-factor"] = np.array([a])
    g.attrs["RunName"] = np.bytes_("vt run")
    g.attrs["System"] = np.bytes_("sandbox")
    g.attrs["SelectOutput"] = np.bytes_("Default")
    g.attrs["SnapshotDate"] = np.bytes_("10:11:12 2026-01-02 UTC")
    if output_type is not None:
        g.attrs["OutputType"] = np.bytes_(output_type)
    for k, v in (extra or {}).items():
        g.attrs[k] = v
    c = h.create_group("Code")
    c.attrs["Code"] = np.bytes_("SWIFT")
    c.attrs["Git Branch"] = np.bytes_("main")
    for n in ("Units", "InternalCodeUnits"):
        u = h.create_group(n)
        for k, v in (units or UNITS).items():
            u.attrs[k] = np.array([v])
    cos = h.create_group("Cosmology")
    cos.attrs["Cosmological run"] = np.array([0], dtype="i4")
    hy = h.create_group("HydroScheme")
    hy.attrs["Adiabatic index"] = np.array([5.0 / 3.0])
    hy.attrs["Kernel gamma"] = np.array([1.825742])
    p = h.create_group("Parameters")
    p.attrs["Snapshots:basename"] = np.bytes_("snap")


class World:
    """Cells, their storage order, and the particles of each type in storage order.

    cells: list of integer triples (cell coordinates), index = cell id
    disk:  permutation of cell ids: order of the cells in the file
    parts: {ptype: list of (cell id, (x, y, z))}, any order; stored by disk order of cell
    """

    def __init__(self, dims, cell_size, disk, parts, scale=1.0):
        self.dims = dims
        self.cell_size = cell_size
        self.cells = [(i, j, k) for i in range(dims[0]) for j in range(dims[1])
                      for k in range(dims[2])]
        self.disk = list(disk)
        self.scale = scale
        rank = {cid: n for n, cid in enumerate(self.disk)}
        self.parts = {t: sorted(ps, key=lambda q: rank[q[0]]) for t, ps in parts.items()}
        self.box = [d * s for d, s in zip(dims, cell_size)]

    def counts(self, t):
        c = [0] * len(self.cells)
        for cid, _ in self.parts[t]:
            c[cid] += 1
        return c

    def offsets(self, t):
        c, off, run = self.counts(t), [0] * len(self.cells), 0
        for cid in self.disk:
            off[cid] = run
            run += c[cid]
        return off

    def centres(self):
        return np.array([[(q + 0.5) * s for q, s in zip(c, self.cell_size)] for c in self.cells])

    def extents(self, t):
        """Per-cell min/max of the particle positions, in the image nearest the cell."""
        cen = self.centres()
        lo = np.full((len(self.cells), 3), np.inf)
        hi = np.full((len(self.cells), 3), -np.inf)
        for cid, pos in self.parts[t]:
            for d in range(3):
                x = pos[d]
                L = self.box[d]
                x = min((x - L, x, x + L), key=lambda y: abs(y - cen[cid][d]))
                lo[cid, d] = min(lo[cid, d], x)
                hi[cid, d] = max(hi[cid, d], x)
        empty = np.isinf(lo)
        lo[empty] = np.broadcast_to(cen, lo.shape)[empty]
        hi[empty] = np.broadcast_to(cen, hi.shape)[empty]
        return lo, hi

    def write_cells(self, h, groups, *, bbox, legacy_offsets=False):
        """groups: {hdf5 name in Cells: ptype}."""
        g = h.create_group("Cells")
        g.create_dataset("Centres", data=self.centres() * self.scale)
        m = g.create_group("Meta-data")
        m.attrs["dimension"] = np.array(self.dims, dtype="i4")
        m.attrs["nr_cells"] = np.array([len(self.cells)], dtype="i4")
        m.attrs["size"] = np.array(self.cell_size, dtype=float) * self.scale
        off = "Offsets" if legacy_offsets else "OffsetsInFile"
        for name, t in groups.items():
            g.create_dataset(f"Counts/{name}", data=np.array(self.counts(t), dtype="i8"))
            g.create_dataset(f"{off}/{name}", data=np.array(self.offsets(t), dtype="i8"))
            if bbox:
                lo, hi = self.extents(t)
                g.create_dataset(f"MinPositions/{name}", data=lo * self.scale)
                g.create_dataset(f"MaxPositions/{name}", data=hi * self.scale)


def snapshot(path, world, *, fields=None, bbox=True, chunk=None, a=0.5, output_type="FullVolume",
             has_type=None, links=True, named=None, legacy_offsets=False, extra=None, core=False,
             units=None):
    """Write a snapshot.

    fields: {ptype: {dataset name: (values per row (function of row numbers) , attrs, chunk)}}
    ParticleIDs are the row numbers + 1000 * (ptype + 1), so rows can be recovered.
    """
    h = path if isinstance(path, h5py.File) else h5py.File(path, "w")
    num = [len(world.parts.get(t, ())) for t in range(7)]
    header(h, a=a, L=[b * world.scale for b in world.box], num=num, output_type=output_type,
           has_type=has_type, extra=extra, units=units)
    world.write_cells(h, {f"PartType{t}": t for t in world.parts}, bbox=bbox,
                      legacy_offsets=legacy_offsets)
    for t, ps in world.parts.items():
        n = len(ps)
        g = f"PartType{t}"
        rows = np.arange(n)
        put(h, f"{g}/Coordinates",
            np.array([p for _, p in ps], dtype=float).reshape(n, 3) * world.scale, COORD, chunk)
        put(h, f"{g}/ParticleIDs", rows + 1000 * (t + 1), fattrs(desc="ids"), chunk)
        for name, (fn, attrs, ch) in (fields or {}).get(t, {}).items():
            put(h, f"{g}/{name}", fn(rows), attrs, ch)
    if links:
        for t in world.parts:
            h[{0: "GasParticles", 1: "DMParticles", 4: "StarsParticles",
               5: "BHParticles"}.get(t, f"Type{t}Particles")] = h5py.SoftLink(f"/PartType{t}")
    if named:
        for k, v in named.items():
            h.create_dataset(f"SubgridScheme/NamedColumns/{k}",
                             data=np.array([x.encode() for x in v], dtype="S32"))
    if not isinstance(path, h5py.File):
        h.close()


def soap(path, world, *, groups=("InputHalos", "BoundSubhalo", "SO/200_crit"), a=0.5, fields=None,
         chunk=None, output_type="SOAP", units=None):
    """Write a SOAP-like catalogue: all groups share the rows of ptype 0 of `world`."""
    h = path if isinstance(path, h5py.File) else h5py.File(path, "w")
    n = len(world.parts[0])
    header(h, a=a, L=[b * world.scale for b in world.box], num=[0] * 7, output_type=output_type,
           extra={"NumSubhalos_ThisFile": np.array([n], dtype="i4"),
                  "NumSubhalos_Total": np.array([n], dtype="i4"),
                  "SubhaloTypes": list(groups)}, units=units)
    world.write_cells(h, {"Subhalos": 0}, bbox=False)
    rows = np.arange(n)
    for i, g in enumerate(groups):
        put(h, f"{g}/RowIndex", rows + 1000 * (i + 1), fattrs(desc="row"), chunk)
        if i == 0:
            put(h, f"{g}/HaloCentre",
                np.array([p for _, p in world.parts[0]], dtype=float).reshape(n, 3) * world.scale,
                COORD, chunk)
        for name, (fn, attrs, ch) in (fields or {}).get(g, {}).items():
            put(h, f"{g}/{name}", fn(rows), attrs, ch)
    if not isinstance(path, h5py.File):
        h.close()
