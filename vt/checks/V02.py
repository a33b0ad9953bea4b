"""V02: regions, slabs, rotations, frames and orientation of images (Region.tla, ImageTrace.tla)."""
import itertools
import sys
import warnings

import numpy as np

from vt import common, snap, tlc, workers
from vt.checks import images
from vt.checks.R02 import validate

KINDS = [("project", "fast"), ("project", "histogram"), ("project", "renormalised"), ("slice", "sph"), ("volume", "scatter")]
TURNS = [[[s[i] if p[i] == j else 0 for j in range(3)] for i in range(3)]
         for p in itertools.permutations(range(3)) for s in itertools.product((1, -1), repeat=3)]
INPUTS = ["coordinates", "smoothing_lengths", "masses", "weights", "region", "center", "plane"]


def case(ctx, st, kind, backend):
    """A random image of a random region."""
    rng = ctx.rng
    box = [rng.choice([6, 7, 8, 10]) for _ in range(3)]
    res = rng.choice([1, 2, 3, 5, 8, 13] if kind != "volume" else [1, 2, 4, 6, 8, 12])
    periodic = rng.random() < 0.6
    rot = None
    if not periodic and rng.random() < 0.7:
        o = rng.choice([0, 50])
        rot = (rng.choice(TURNS), [100 * rng.randrange(-2, b + 2) + o for b in box])
    away = rng.choice([0, 0, 1, 4]) if periodic else 0
    plane = 25 * rng.randrange(-4 - 4 * away * box[2], 4 * (away + 1) * box[2] + 4) if kind == "slice" else None
    parts = images.particles(rng, rng.choice([1, 2, 4, 7, 12] if kind != "volume" else [1, 3, 6]), box, spread=rng.choice([0, 0, 2]),
                             plane=plane if rot is None else None)
    s = images.Scene(ctx, box, parts, a=rng.choice([0.5, 0.25, 1.0, 0.3]), e=rng.choice([0, -3, 2, 1]), px=rng.choice([0.25, 0.5, 4.0]))
    region = slab = None
    if kind == "volume":
        lo = [25 * rng.randrange(-40, 60) for _ in range(3)]
        region = [(v, v + 100 * res) for v in lo]
        if rng.random() < 0.2:
            s = images.Scene(ctx, [6] * 3, parts)
            region, res = None, 6
    elif rng.random() < 0.2:
        res = max(box[:2])
    else:
        other = rng.choice([100 * res, rng.randrange(1, 100 * res + 1), 100 * rng.randrange(1, res + 1)])
        side = [100 * res, other]
        rng.shuffle(side)
        lo = [25 * rng.randrange(-40, 60) for _ in range(2)]
        region = [(lo[k], lo[k] + side[k]) for k in range(2)]
        if kind == "project" and rng.random() < 0.6:
            a = 25 * rng.randrange(-50, 60)
            depth = 25 * rng.randrange(1, 4 * box[2] + (1 if periodic else 12))
            if rng.random() < 0.25:
                depth = 100 * box[2]
            slab = (a, a + depth)
    mask = None if rng.random() < 0.6 else [rng.random() < 0.6 for _ in parts]
    return images.Event(kind, backend, s, res=res, region=region, slab=slab, plane=plane, rot=rot, periodic=periodic, mask=mask,
                        what=rng.choice(["masses", "weights", "weights", None]))


def regions(ctx):
    warnings.simplefilter("ignore")
    rng, out = ctx.rng, []
    st = images.Stencils(ctx)
    mine = [KINDS[k] for k in ctx.args["kinds"]]
    for rec in ctx.args["cases"]:
        kind, backend = rng.choice([k for k in mine if k[0] != "volume"] or mine)
        if kind == "volume":
            continue
        q = images.FRAC
        at = lambda v: 100 * (v // 4) + q[v % 4]
        x = [at(rec["x"]), 137, at(rec["z"])]
        if kind == "slice":
            x[2] = 437
        box = [rec["box"] // 4 or 6, 8, rec["box"] // 4 or 6]
        s = images.Scene(ctx, box, [dict(x=x, w=rng.choice([0, 1]) if kind == "project" and box[0] < 6 else rng.randrange(4), m=2)])
        R = [[-1, 0, 0], [0, 1, 0], [0, 0, 1]]
        ev = images.Event(kind, backend, s, res=rec["long"] // 4, region=[(25 * rec["lo"], 25 * (rec["lo"] + rec["len"])), (0, 25 * rec["long"])],
                          slab=(25 * rec["zlo"], 25 * rec["zhi"]) if kind == "project" else None, plane=400 if kind == "slice" else None,
                          rot=(R, [25 * rec["c"], 0, 0]) if rec["turned"] else None, periodic=rec["box"] > 0)
        if box[0] < 6 and kind == "slice":
            continue
        out.append(ev.event(st, [images.guarded(ev.draw), images.guarded(lambda: ev.draw(pixel_grid=True))]))
        ctx.count("replayed")
    for i in range(ctx.args["n"]):
        kind, backend = mine[i % len(mine)]
        ev = case(ctx, st, kind, backend)
        frames = [k for k in INPUTS if rng.random() < 0.3 and k != "weights" and k != "masses"]
        phys = rng.random() < 0.4
        frames += [ev.what] if phys and ev.what else []
        got = [images.guarded(lambda: ev.draw(frames=frames)),
               images.guarded(lambda: ev.draw(frames=[ev.what] if phys and ev.what else [], pixel_grid=rng.random() < 0.5))]
        out.append(ev.event(st, got, comoving=not (phys and ev.what)))
        ctx.count(f"{kind}_{backend}")
    return out


def neighbours(ctx):
    """Slices that show the nearest particle; and other equalities."""
    warnings.simplefilter("ignore")
    from swiftsimio import visualisation as vis
    from swiftsimio.visualisation.rotation import rotation_matrix_from_vector
    rng, out = ctx.rng, []
    for _ in range(ctx.args["n"]):
        ev = None
        while ev is None or ev.scene.parts == []:
            ev = case(ctx, None, "slice", "nearest_neighbours")
        s = ev.scene
        if ev.mask is not None and not any(ev.mask):
            ev.mask[0] = True
        n = len(s.parts)
        h = 0.5 + np.arange(n) * 0.25
        m = 1.0 + np.array(rng.sample(range(50), n))
        how = rng.choice(["volumes", "densities", "lengths"])
        extra = {}
        if how == "volumes":
            extra["Volumes"] = (h**3, snap.fattrs(L=3.0, a=3.0))
        elif how == "densities":
            extra["Densities"] = (m / h**3, snap.fattrs(L=-3.0, M=1.0, a=-3.0))
        for p, v in zip(s.parts, m):
            p["m"] = float(v)
        e = s.e
        s2 = images.Scene(ctx, s.box, s.parts, px=s.px, a=s.a, e=e, fields=extra)
        ev.scene = s2
        if how == "lengths":
            s2.pristine["smoothing_lengths"] = s2.length(h * 100 / s2.px)
        ev.what = "weights"
        frames = [k for k in INPUTS if rng.random() < 0.3]
        if how == "densities":
            frames = [k for k in frames if k != "masses"]
        ref = m / h**3
        t = dict(ev.scene_fields(), op="near", px=[], shape=[], gotco=False, comoving="weights" not in frames, exc="")
        for p in t["parts"]:
            p["m"] = 1
        try:
            d = s2.fresh(frames)
            im = draw_near(ev, s2, frames)
            v = im.to_physical_value(d.gas.weights.units / s2.L**3) * s2.a**3 / s2.a**e
            # which particle has this value
            near = np.abs(v[..., None] / ref - 1) < 1e-4
            hit = np.where(near.sum(axis=-1) == 1, near.argmax(axis=-1) + 1, 0)
            t.update(px=hit.astype(int).tolist(), shape=[int(k) for k in im.shape], gotco=bool(im.comoving))
        except Exception as x:
            t["exc"] = repr(x)[:300]
        if len(set(np.round(ref, 9))) == n:
            out.append(t)
            ctx.count("nearest_" + how)
    for _ in range(ctx.args["n"]):
        v = [rng.randrange(-4, 5) for _ in range(3)]
        if v == [0, 0, 0]:
            continue
        axis = rng.choice("xyz")
        t = dict(op="same", kind="rotation", backend="matrix", a=[], b=[], tol=5, clause="vector-turned-to-the-axis", exc="", vector=v, axis=axis)
        try:
            # the matrix takes the vector to the axis, and is a rotation
            R = rotation_matrix_from_vector(np.array(v, dtype=float), axis=axis)
            want = {"x": [1, 0, 0], "y": [0, 1, 0], "z": [0, 0, 1]}[axis]
            t["a"] = images.ints(list(R @ np.array(v, dtype=float) / np.linalg.norm(v)) + list((R @ R.T).ravel()) + [np.linalg.det(R)])
            t["b"] = images.ints(want + [1, 0, 0, 0, 1, 0, 0, 0, 1] + [1])
        except Exception as x:
            t["exc"] = repr(x)[:300]
        out.append(t)
        ctx.count("vectors")
    for _ in range(ctx.args["n"] // 2):
        # a slice through the middle of a layer of voxels shows the layer
        res = rng.choice([6, 7])
        periodic = rng.random() < 0.7
        parts = images.particles(rng, rng.choice([1, 3, 6]), [res] * 3)
        for p in parts:
            p["w"] = rng.choice([2, 3, 4])
        s = images.Scene(ctx, [res] * 3, parts)
        layer = rng.randrange(res)
        M = sum(p["m"] for p in parts)
        t = dict(op="same", kind="slice", backend="sph", a=[], b=[], tol=60 * M + 20, clause="slice-is-layer-of-volume", exc="")
        try:
            ev = images.Event("slice", "sph", s, res=res, plane=100 * layer + 50, periodic=periodic)
            t["a"] = np.array(ev.draw()["px"]).ravel().tolist()
            ev = images.Event("volume", "scatter", s, res=res, periodic=periodic)
            t["b"] = np.array(ev.draw()["px"])[:, :, layer].ravel().tolist()
        except Exception as x:
            t["exc"] = repr(x)[:300]
        out.append(t)
        ctx.count("layers")
    return out


def draw_near(ev, s, frames):
    """As Event.draw, but gives the image itself."""
    keep = s.read
    box = []
    s.read = lambda im, *a: box.append(im)
    try:
        ev.draw(frames=frames, parallel=ev.scene.px == 0.5)
    finally:
        s.read = keep
    return box[0]


def body(c):
    K = dict(Boxes="{0, 8, 12, 16}", Spans="{3, 4, 6, 8, 12, 20}", Lows="{0, 6, 8, 10, 15}", Variant="code", Emit=False)
    small = dict(K, Boxes="{0, 8, 12}", Spans="{4, 6, 8, 20}", Lows="{0, 8, 15}")
    if not c.thorough:
        K = dict(K, Boxes="{0, 8, 12}", Spans="{3, 4, 6, 8, 20}")
    c.model(tlc.run("Region", tlc.cfg_text(K, spec="Spec", invariants=["Correct"], properties=["Ends"]), workers=8, timeout=800), "Region")
    for v in ("square", "corner", "and", "slab", "one", "turn"):
        r = tlc.run("Region", tlc.cfg_text(dict(small, Variant=v), spec="Spec", invariants=["Correct"]), workers=8, allow_violation=True)
        if not r.violated:
            raise tlc.ModelError(f"variant {v} not refuted")
    g = tlc.run("Region", tlc.cfg_text(dict(small, Boxes="{0, 8, 12, 24}", Emit=True), spec="Spec", invariants=["Correct", "EmitCase"]), workers=8)
    c.model(g, "Region-cases")
    cases = [dict(r) for r in g.records]
    c.rng.shuffle(cases)
    cases = cases[:c.n(360, 3000)]
    jobs = []
    for i, threads in enumerate((1, 2, 3, 8, 16)):
        env = dict(NUMBA_NUM_THREADS=str(threads), NUMBA_BOUNDSCHECK=str(i % 2))
        jobs.append((env, dict(cases=cases[i::5], n=c.n(90, 900), kinds=[i, (i + 2) % 5, (i + 3) % 5])))
    trace = workers.spawn(c, "vt.checks.V02", "regions", jobs)
    trace += workers.spawn(c, "vt.checks.V02", "neighbours", [(dict(), dict(n=c.n(40, 400))), (dict(), dict(n=c.n(40, 400)))])
    validate(c, "ImageTrace", trace, keyf=lambda ev, cl: f"{ev['kind']}-{ev['backend']}")
    c.assumptions += ["no particle is exactly on the edge of a pixel or slab", "kernels are narrower than the periodic box"]


if __name__ == "__main__":
    sys.exit(common.main("V02", body))
