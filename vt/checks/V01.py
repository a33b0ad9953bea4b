"""V01: every particle is gridded exactly once (Stencil.tla, ImageTrace.tla)."""
import sys
import warnings

import numpy as np

from vt import common, tlc, workers
from vt.checks import images
from vt.checks.R02 import validate

KINDS = [("project", b) for b in images.PROJ] + [("slice", "sph"), ("volume", "scatter")]


def several(ev, rng):
    """The same image serially, in parallel, and from the particles in another order."""
    n = len(ev.scene.parts)
    order = list(range(n))
    rng.shuffle(order)
    got = []
    for kw in (dict(), dict(parallel=True), dict(parallel=rng.random() < 0.7, order=np.array(order, dtype=int))):
        if n == 0 and "order" in kw:
            continue
        got.append(images.guarded(lambda: ev.draw(**kw)))
    return got


def gridding(ctx):
    warnings.simplefilter("ignore")
    rng, out = ctx.rng, []
    st = images.Stencils(ctx)
    mine = [KINDS[k] for k in ctx.args["kinds"]]
    out += kernels(ctx, st, mine)
    for rec in ctx.args["cases"]:
        # a case of the model: one axis, one particle; the other axes are chosen here
        kind, backend = rng.choice(mine)
        axis = rng.randrange(2 if kind == "slice" else (3 if kind == "volume" else 2))
        b = rec["b"] or 6
        if b < 4 * images.GAMMA[kind] and rec["w"] > 2 and b < 4:
            continue
        n = rec["n"]
        box = [7, 7, 7]
        box[axis] = b
        x = [100 * rng.randrange(n) + rng.choice(images.FRAC) for _ in range(3)]
        x[axis] = 100 * rec["c"] + images.FRAC[rec["q"]]
        w = min(rec["w"], 4)
        plane = x[2] - rng.choice([13, 37, 63])
        s = images.Scene(ctx, box, [dict(x=x, w=w, m=1)])
        ev = images.Event(kind, backend, s, res=n, region=[(0, 100 * n)] * (3 if kind == "volume" else 2),
                          periodic=rec["b"] > 0, plane=plane if kind == "slice" else None)
        out.append(ev.event(st, several(ev, rng)))
        ctx.count("replayed")
    for i in range(ctx.args["n"]):
        kind, backend = mine[i % len(mine)]
        n = rng.choice([0, 1, 2, 3, 5, 8, 9, 15, 17]) if kind != "volume" else rng.choice([0, 1, 2, 5, 9])
        res = rng.choice([6, 7, 8, 9, 11]) if kind != "volume" else rng.choice([6, 7])
        box = [res, res, res]
        periodic = rng.random() < 0.75
        region = None
        if rng.random() < 0.4:
            # unequal boxes, regions that are longer than the box in some directions only
            box = [rng.choice([3, 3, 5, 6, 9, 12]) for _ in range(3)]
            lo = [100 * rng.randrange(-8, 9) for _ in range(3)]
            region = [(v, v + 100 * res) for v in (lo if kind == "volume" else lo[:2])]
        plane = 100 * rng.randrange(res) + rng.choice([0, 50]) if kind == "slice" else None
        parts = images.particles(rng, n, box, spread=rng.choice([0, 0, 1]), plane=plane)
        for p in parts:
            p["w"] = min(p["w"], 4 if min(box) > 4 else 3)
        s = images.Scene(ctx, box, parts)
        ev = images.Event(kind, backend, s, res=res, periodic=periodic, plane=plane, region=region)
        out.append(ev.event(st, several(ev, rng)))
        ctx.count(f"{kind}_{backend}")
    return out


def kernels(ctx, st, mine):
    """One particle on its own: where it leaves its weight."""
    rng, out = ctx.rng, []
    for kind, backend in mine:
        for w in range(len(images.WIDTHS)):
            fine = [3, 97] + images.FRAC
            fs = [(13, 37, 63), (63, 87, 37), tuple(rng.choice(fine) for _ in range(3))] if not ctx.thorough else [
                tuple(rng.choice(fine) for _ in range(3)) for _ in range(8)] + [(a, b, c) for a in images.FRAC for b in images.FRAC for c in (37,)]
            for f in fs:
                f = list(f)
                kw = images.WIDTHS[w] * images.GAMMA[kind]
                if kind == "slice":
                    f[2] = rng.choice([0, 13, 87, 137, 250])
                if kind == "project":
                    f[2] = 0
                parallel = rng.random() < 0.5
                e = dict(op="kernel", f=f, kw=int(100 * kw) + 1, dim=3 if kind == "volume" else 2, total=0, kind=kind, backend=backend,
                         tol=2 + (5 if kind == "volume" else 0), H=0, v=[], mirrored=[], swapped=[], exc="", depth=f[2] if kind == "slice" else 0)
                mf = [100 - v for v in f] if kind != "slice" else [100 - f[0], 100 - f[1], f[2]]
                sf = {"project": [f[1], f[0], 0], "slice": [f[1], f[0], f[2]], "volume": [f[2], f[0], f[1]]}[kind]
                if kind == "project":
                    mf[2] = 0
                if kind != "slice":
                    if backend in ("histogram", "renormalised", "subsampled", "subsampled_extreme") or kw < 0.5:
                        e["total"] = 200
                    elif kw > 2.4:
                        e["total"] = 30000
                if backend == "histogram" or (backend != "subsampled" and backend != "subsampled_extreme" and kw < 0.5):
                    e["kw"] = 0  # everything in the pixel of the particle
                try:
                    a = st.get(kind, backend, f, w, parallel)
                    e.update(H=a["H"], v=a["v"], mirrored=st.get(kind, backend, mf, w, not parallel)["v"],
                             swapped=st.get(kind, backend, sf, w)["v"])
                except Exception as x:
                    e["exc"] = repr(x)[:300]
                out.append(e)
    ctx.count("kernels", len(out))
    return out


def body(c):
    K = dict(Res="{1, 2, 3, 5}", Boxes="{0, 7, 8, 16, 21, 24, 40, 52}", Widths="{1, 7, 9, 14, 15, 23}", Variant="code", Emit=False)
    if c.thorough:
        K.update(Res="{1, 2, 3, 4, 5, 6}", Boxes="{0, 4, 7, 8, 11, 16, 21, 24, 31, 32, 40, 48, 52}", Widths="{1, 4, 7, 8, 9, 14, 15, 16, 17, 23, 31}")
    inv = ["Correct", "NeverTooMuch"]
    c.model(tlc.run("Stencil", tlc.cfg_text(K, spec="Spec", invariants=inv, properties=["Ends"]), workers=8, timeout=800), "Stencil")
    for v in ("short", "copies", "early", "skip", "nowrap"):
        r = tlc.run("Stencil", tlc.cfg_text(dict(K, Variant=v, Res="{1, 2, 3}", Boxes="{0, 7, 16, 24}"), spec="Spec", invariants=inv),
                    workers=8, allow_violation=True)
        if not r.violated:
            raise tlc.ModelError(f"variant {v} not refuted")
    g = tlc.run("Stencil", tlc.cfg_text(dict(K, Emit=True, Res="{1, 2, 3, 5}", Boxes="{0, 40, 48, 56}", Widths="{0, 1, 2, 3, 4}"), spec="Spec",
                                        invariants=inv + ["EmitCase"]), workers=8)
    c.model(g, "Stencil-cases")
    cases = [dict(r) for r in g.records]
    c.rng.shuffle(cases)
    cases = cases[:c.n(240, 2400)]
    # compiling takes longest: each worker has some of the backends and its own number of threads
    jobs = []
    for i, threads in enumerate((1, 2, 3, 4, 5, 8, 16)):
        env = dict(NUMBA_NUM_THREADS=str(threads), NUMBA_BOUNDSCHECK=str(i % 2))
        jobs.append((env, dict(cases=cases[i::7], n=c.n(30, 400), kinds=[i, (i + 1) % 7, (i + 3) % 7])))
    trace = workers.spawn(c, "vt.checks.V01", "gridding", jobs)
    validate(c, "ImageTrace", trace, keyf=lambda ev, cl: f"{ev['kind']}-{ev['backend']}")
    c.assumptions += ["kernels are narrower than the periodic box", "what a kernel leaves in a pixel is learned from images of one particle, "
                      "which are judged on total weight, reach and symmetry"]


if __name__ == "__main__":
    sys.exit(common.main("V01", body))
