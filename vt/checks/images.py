"""Images, slices and volumes of small sets of particles (V01, V02).  Runs in workers."""
import itertools
import math
import warnings

import numpy as np

from vt import snap

FRAC = [13, 37, 63, 87]
WIDTHS = [0.05, 0.11, 0.6, 1.3, 1.9]
GAMMA = dict(project=1.897367, slice=1.936492, volume=1.936492)
PROJ = ["histogram", "fast", "renormalised", "subsampled", "subsampled_extreme"]
MAXI = 2**30


def ints(a):
    a = np.asarray(a, dtype="f8") * 1e6
    a = np.where(np.isfinite(a), np.clip(a, -MAXI, MAXI), MAXI)
    return np.rint(a).astype("i8").tolist()


class Scene:
    """Particles in a box of `box` pixels, each px wide; coordinates in hundredths of a pixel."""

    def __init__(self, ctx, box, parts, px=0.25, a=0.5, e=0, fields=None):
        import swiftsimio as sw

        self.sw, self.box, self.parts, self.px, self.a, self.e = sw, box, parts, px, a, e
        size = tuple(float(b) * px for b in box)
        n = len(parts)
        x = np.array([p["x"] for p in parts], dtype="f8").reshape(n, 3) * (px / 100)
        m = np.array([p["m"] for p in parts], dtype="f8")
        h = np.array([WIDTHS[p["w"]] * px for p in parts], dtype="f8")
        w = snap.World((1, 1, 1), size, [0], {0: [(0, tuple(r)) for r in x]})
        self.m, self.h = m, h
        path = ctx.path("scene.hdf5")
        f = {"Masses": (lambda rows: m, snap.fattrs(M=1.0), None),
             "Weights": (lambda rows: m, snap.fattrs(M=1.0, t=-1.0, a=float(e)), None),
             "SmoothingLengths": (lambda rows: h, snap.fattrs(L=1.0, a=1.0), None)}
        for k, (v, at) in (fields or {}).items():
            f[k] = (lambda rows, v=v: v, at, None)
        snap.snapshot(path, w, a=a, fields={0: f}, has_type=[1, 0, 0, 0, 0, 0, 0])
        self.d = sw.load(path)
        self.L = self.d.metadata.boxsize.units
        self.names = ["coordinates", "smoothing_lengths", "masses", "weights", "particle_ids"]
        self.names += [{"Volumes": "volumes", "Densities": "densities"}[k] for k in (fields or {})]
        self.pristine = {k: getattr(self.d.gas, k).copy() for k in self.names}

    def fresh(self, frames=(), order=None):
        """Set the fields of the dataset to what is in the file, in the frames and order asked for."""
        for name, v in self.pristine.items():
            v = v.copy() if order is None else v[order]
            if name in frames:
                v.convert_to_physical()
            setattr(self.d.gas, name, v)
        return self.d

    def length(self, hundredths, physical=False):
        """A length or set of lengths, in either frame."""
        from swiftsimio import cosmo_array, cosmo_quantity
        v = np.asarray(hundredths, dtype="f8") * (self.px / 100) * (self.a if physical else 1.0)
        cls = cosmo_quantity if v.ndim == 0 else cosmo_array
        return cls(v if v.ndim else float(v), self.L, comoving=not physical, scale_factor=self.a, scale_exponent=1)

    def read(self, image, what, dim):
        """Shares of unit weights (millionths) per pixel; frame, exponent and unit."""
        sw = self.sw
        q = getattr(self.d.gas, what) if what else None
        power = 2 if dim == "project" else 3
        g = dict(px=[], shape=[int(i) for i in image.shape], comoving=bool(image.comoving), e=0, unit=False, exc="")
        expr = image.cosmo_factor.expr
        g["e"] = int(round(float(expr.as_powers_dict()[sw.objects.a]))) if expr != 1 else 0
        unit = (q.units if q is not None else image.units / image.units) / self.L**power
        g["unit"] = bool(image.units.dimensions == unit.dimensions)
        if g["unit"]:
            e = self.e if what == "weights" else 0
            v = image.to_physical_value(unit)
            g["px"] = ints(v * (self.px * self.a) ** power / self.a**e)
        return g


def guarded(fn):
    try:
        return fn()
    except Exception as e:
        return dict(px=[], shape=[], comoving=False, e=0, unit=False, exc=repr(e)[:300])


class Stencils:
    """What one particle leaves around it, by the implementation itself."""

    def __init__(self, ctx):
        self.ctx, self.cache = ctx, {}
        self.base = Scene(ctx, [64, 64, 64], [dict(x=[3200] * 3, w=0, m=1)])

    def get(self, kind, backend, f, w, parallel=False):
        key = (kind, backend, tuple(f), w, parallel)
        if key not in self.cache:
            self.cache[key] = self.make(kind, backend, f, w, parallel)
        return self.cache[key]

    def make(self, kind, backend, f, w, parallel):
        from swiftsimio import visualisation as vis
        s = self.base
        H = 1 + math.ceil(WIDTHS[w] * GAMMA[kind]) if backend != "histogram" else 1
        n = 2 * H + 1
        x = [3200 + f[0], 3200 + f[1], 3200 + (f[2] if kind != "project" else 0)]
        s.d.gas.coordinates = s.length([x])
        s.d.gas.smoothing_lengths = s.length([100 * WIDTHS[w]])
        lo = 3200 - 100 * H
        hi = lo + 100 * n
        if kind == "project":
            im = vis.project_gas(s.d, resolution=n, region=s.length([lo, hi] * 2), backend=backend, periodic=False,
                                 parallel=parallel)
        elif kind == "slice":
            im = vis.slice_gas(s.d, resolution=n, region=s.length([lo, hi] * 2), z_slice=s.length(3200), backend=backend,
                               periodic=False, parallel=parallel)
        else:
            im = vis.volume_render.render_gas(s.d, resolution=n, region=s.length([lo, hi] * 3), periodic=False,
                                              parallel=parallel)
        return dict(f=list(f), w=w, H=H, v=s.read(im, "masses", kind)["px"])


def turn(R, c, x):
    return [c[i] + sum(R[i][k] * (x[k] - c[k]) for k in range(3)) for i in range(3)]


class Event:
    """An image described for ImageTrace: built once, drawn in several ways."""

    def __init__(self, kind, backend, scene, *, res, region=None, slab=None, plane=None, rot=None, periodic=True,
                 mask=None, what="masses"):
        self.kind, self.backend, self.scene, self.res = kind, backend, scene, res
        self.region, self.slab, self.plane, self.rot, self.periodic, self.mask, self.what = \
            region, slab, plane, rot, periodic, mask, what
        self.dim = 3 if kind == "volume" else 2
        box = [100 * b for b in scene.box]
        self.lo = [r[0] for r in region] if region else [0] * self.dim
        self.len = [r[1] - r[0] for r in region] if region else box[:self.dim]
        self.long = max(self.len[:2])
        assert self.long == 100 * res, (self.long, res)

    def keys(self):
        """Stencils needed."""
        s, out = self.scene, set()
        for p in s.parts:
            x = turn(*self.rot, p["x"]) if self.rot else p["x"]
            f = [(x[k] - self.lo[k]) % 100 for k in range(self.dim)]
            if self.kind == "slice":
                reach = int(100 * WIDTHS[p["w"]] * GAMMA["slice"]) + 1
                b = 100 * s.box[2] if self.periodic else 0
                d = x[2] - self.plane
                for u in ([d] if not b else [d % b, b - d % b, b + d % b, 2 * b - d % b]):
                    if abs(u) <= reach:
                        out.add((f[0], f[1], abs(u), p["w"]))
            else:
                out.add((f[0], f[1], f[2] if self.dim == 3 else 0, p["w"]))
        return out

    def draw(self, *, parallel=False, frames=(), order=None, pixel_grid=False):
        """frames: which inputs are given in the physical frame."""
        from swiftsimio import visualisation as vis
        s = self.scene
        d = s.fresh(frames, order)
        what = self.what
        mask = None
        if self.mask is not None:
            mask = np.array(self.mask, dtype=bool)
            mask = mask if order is None else mask[order]
        args = dict(resolution=self.res, project=what, parallel=parallel, periodic=self.periodic)
        if mask is not None:
            args["mask"] = mask
        if self.region is not None:
            r = [v for ab in self.region for v in ab]
            if self.kind == "project" and self.slab:
                r += list(self.slab)
            args["region"] = s.length(r, "region" in frames)
        if self.rot:
            args.update(rotation_matrix=np.array(self.rot[0], dtype=float),
                        rotation_center=s.length(self.rot[1], "center" in frames))
        data = d.gas if pixel_grid else d
        if self.kind == "project":
            fn = vis.projection.project_pixel_grid if pixel_grid else vis.projection.project_gas
            im = fn(data, backend=self.backend, **args)
        elif self.kind == "slice":
            fn = vis.slice.slice_pixel_grid if pixel_grid else vis.slice.slice_gas
            z = self.plane - (self.rot[1][2] if self.rot else 0)
            if z or "plane" in frames:
                args["z_slice"] = s.length(z, "plane" in frames)
            im = fn(data, backend=self.backend, **args)
        else:
            fn = vis.volume_render.render_voxel_grid if pixel_grid else vis.volume_render.render_gas
            im = fn(data, **args)
        return s.read(im, what, self.kind)

    def scene_fields(self):
        s = self.scene
        b = s.box if self.periodic else [0, 0, 0]
        R, c = self.rot or ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [0, 0, 0])
        parts = [dict(x=p["x"], w=p["w"], m=p["m"] if self.what else 1, on=True if self.mask is None else bool(self.mask[i]))
                 for i, p in enumerate(s.parts)]
        return dict(parts=parts, rot=dict(on=self.rot is not None, R=R, c=c), box=b, lo=self.lo, len=self.len,
                    long=self.long, res=self.res, dim=self.dim,
                    slab=dict(on=self.slab is not None, lo=self.slab[0] if self.slab else 0, hi=self.slab[1] if self.slab else 0),
                    plane=dict(on=self.kind == "slice", z=self.plane or 0), backend=self.backend, kind=self.kind)

    def event(self, st, got, comoving=True, tol=None):
        keys = self.keys()
        e = (self.scene.e if self.what == "weights" else 0) - (2 if self.kind == "project" else 3)
        M = sum(p["m"] for p in self.scene.parts)
        sten = [st.get(self.kind, self.backend, k[:3] if self.kind != "project" else (k[0], k[1], 0), k[3]) for k in sorted(keys)]
        reach = max([int(100 * WIDTHS[p["w"]] * GAMMA["slice"]) + 1 for p in self.scene.parts] + [0])
        return dict(self.scene_fields(), op="image", sten=sten, reach=reach, got=got, comoving=comoving, e=e,
                    tol=tol if tol is not None else tolerance(self.backend, M))


def tolerance(backend, M):
    """Millionths of a unit weight per pixel, for a total weight M."""
    return int({"subsampled": 2000, "subsampled_extreme": 2000}.get(backend, 60) * max(M, 1)) + 20


def particles(rng, n, box, spread=0, plane=None):
    """spread: boxes beyond the first in which there may be particles."""
    out = []
    for _ in range(n):
        x = [100 * rng.randrange(-spread * b, (spread + 1) * b) + rng.choice(FRAC) for b in box]
        if plane is not None and rng.random() < 0.7:
            x[2] = plane + rng.choice([-1, 1]) * (rng.randrange(0, 4) * 100 + rng.choice(FRAC))
        out.append(dict(x=x, w=rng.randrange(len(WIDTHS)), m=rng.choice([1, 1, 2, 3, 5])))
    return out
