"""V04: coloured renders of voxel grids, and two-dimensional colour maps (Layers.tla, LayerTrace.tla)."""
import itertools
import sys
import warnings

import numpy as np

from vt import common, tlc
from vt.checks.R02 import validate

CMAPS = ["viridis", "plasma", "inferno", "jet", "coolwarm", "tab10"]


def ints(a, scale=1e4):
    a = np.asarray(a, dtype="f8") * scale
    return np.rint(np.where(np.isfinite(a), np.clip(a, -2**30, 2**30), -2**30)).astype("i8").tolist()


def layers(rng, cmap, m, centers=None):
    import matplotlib.pyplot as plt
    colors = plt.get_cmap(cmap)(np.linspace(0, 1, m))[:, :3]
    one = rng.random() < 0.4
    v = rng.choice([1, 2, 4])
    return [dict(c=(centers or [rng.randrange(-4, 9) for _ in range(m)])[i], v=v if one else rng.choice([1, 2, 4]), rgb=ints(colors[i]))
            for i in range(m)], one


def render(c, data, centers=None):
    import matplotlib.pyplot as plt
    from swiftsimio.visualisation import volume_render as vr
    rng = c.rng
    m = len(centers) if centers else rng.choice([1, 2, 2, 3, 4])
    cmap = rng.choice(CMAPS)
    ls, one = layers(rng, cmap, m, centers)
    a = np.array(data, dtype="f8") / 2
    if rng.random() < 0.3:
        a = a.astype("f4")
    if rng.random() < 0.3:
        a = np.asfortranarray(a)
    if rng.random() < 0.2:
        a = np.repeat(a, 2, axis=2)[:, :, ::2]
    t = dict(op="render", data=data, layers=ls, norm=rng.choice(["fixed", "fixed", "each", "shared", "default"]), lo=0, hi=0,
             mode=rng.choice(["all", "lighten", "add", "lighten"]), got=[], shape=[], exc="")
    norm = None
    if t["norm"] == "fixed":
        t["lo"], t["hi"] = rng.choice([0, 20000]), rng.choice([100000, 400000])
        make = lambda: plt.Normalize(vmin=t["lo"] / 1e5, vmax=t["hi"] / 1e5)
        norm = [make() for _ in range(m)] if rng.random() < 0.5 else make()
    elif t["norm"] == "each":
        norm = [plt.Normalize() for _ in range(m)]
    elif t["norm"] == "shared":
        norm = plt.Normalize()
    else:
        t["norm"] = "each"
    keep = a.copy()
    try:
        widths = 1 / ls[0]["v"] if one else [1 / x["v"] for x in ls]
        kw = dict(cmap=cmap, return_type=t["mode"])
        if norm is not None:
            kw["norm"] = norm
        if t["mode"] == "lighten" and rng.random() < 0.5:
            kw.pop("return_type")
        im, norms = vr.visualise_render(a, [x["c"] / 2 for x in ls], widths, **kw)
        im = np.array([np.asarray(x) for x in im]) if t["mode"] == "all" else np.asarray(im)
        t.update(got=ints(im), shape=list(im.shape))
        if len(norms) != m or not np.array_equal(a, keep):
            t["exc"] = f"{len(norms)} norms or data changed"
    except Exception as e:
        t["exc"] = repr(e)[:300]
    return t


def options(c):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgb
    from swiftsimio.visualisation import volume_render as vr
    rng = c.rng
    m = rng.choice([1, 2, 3, 5])
    cmap = rng.choice(CMAPS)
    ls, one = layers(rng, cmap, m)
    t = dict(op="options", layers=ls, lines=[], curves=[], exc="")
    fig = None
    try:
        fig, ax = vr.visualise_render_options([x["c"] / 2 for x in ls], 1 / ls[0]["v"] if one else [1 / x["v"] for x in ls], cmap=cmap)
        for line in ax.lines:
            x, y = np.asarray(line.get_xdata(), dtype="f8"), np.asarray(line.get_ydata(), dtype="f8")
            rgb = ints(to_rgb(line.get_color()))
            if len(x) == 2:
                t["lines"].append(dict(x=int(round(2 * x[0])), rgb=rgb))
            else:
                lay = ls[len(t["curves"]) % m]
                ks = list(range(-10, 11))
                at = [lay["c"] / 2 + k / 2 / lay["v"] for k in ks]
                t["curves"].append(dict(rgb=rgb, k=ks, y=ints(np.interp(at, x, y), 1e5)))
    except Exception as e:
        t["exc"] = repr(e)[:300]
    if fig is not None:
        plt.close(fig)
    return t


def values(rng, shape):
    n = int(np.prod(shape))
    draw = lambda: rng.choice([rng.randrange(0, 998), rng.randrange(0, 998), 0, 997, -rng.randrange(1, 900), 997 + rng.randrange(1, 900)])
    return np.array([draw() for _ in range(n)], dtype="i8").reshape(shape)


def given(rng, v):
    """Values in 997ths, as the map may get them."""
    x = v / 997.0
    # not quite on the edge between two colours
    x = np.where((v > 0) & (v < 997), x, x)
    how = rng.choice(["f8", "f4", "list", "tuple", "fortran"])
    if how == "list":
        return x.tolist()
    if how == "tuple" and x.ndim == 1:
        return tuple(x.tolist())
    if how == "fortran":
        return np.asfortranarray(x)
    return x.astype("f4" if how == "f4" else "f8")


def apply(c, t, cmap, n=None):
    rng = c.rng
    shape = rng.choice([(5,), (1,), (2, 3), (3, 2, 2), (0,), (7,)])
    h, v = values(rng, shape), values(rng, shape)
    t.update(q=[], want=list(shape), shape=[], exc="")
    try:
        out = cmap(given(rng, h), given(rng, v))
        t["shape"] = list(out.shape)
        if list(out.shape) == list(shape) + [4]:
            rows = ints(out.reshape(-1, 4))
            t["q"] = [dict(h=int(a), v=int(b), rgba=r) for a, b, r in zip(h.ravel(), v.ravel(), rows)]
    except Exception as e:
        t["exc"] = repr(e)[:300]
    return t


def colors(rng, triangle=False):
    n = rng.choice([1, 2, 3, 4, 5])
    alpha = rng.random() < 0.4
    at = rng.choice([[[0, 0], [255, 0], [0, 255], [255, 255], [128, 100]], None])
    out = []
    for i in range(n):
        rgb = [rng.randrange(9) for _ in range(3)]
        out.append(dict(at=at[i] if at else [rng.randrange(256), rng.randrange(256)], rgba=rgb + [rng.randrange(9) if alpha else 8],
                        given=[x / 8 for x in rgb]))
        if alpha:
            out[-1]["given"].append(out[-1]["rgba"][3] / 8)
    return out


def maps(c, trace):
    import matplotlib.pyplot as plt
    from matplotlib.colors import hsv_to_rgb, rgb_to_hsv
    from swiftsimio.visualisation.tools import cmaps
    rng = c.rng
    for i in range(c.n(9, 60)):
        cs = colors(rng)
        cm = cmaps.LinearSegmentedCmap2D([x["given"] for x in cs], [[v / 255 for v in x["at"]] for x in cs], name="x")
        strip = [dict(at=x["at"], rgba=x["rgba"]) for x in cs]
        for _ in range(4):
            trace.append(apply(c, dict(op="map", colors=strip), cm))
        # what is drawn as the map: the image on the axes
        t = dict(op="plotted", colors=strip, q=[], exc="")
        fig, ax = plt.subplots()
        try:
            cm.plot(ax, include_points=rng.random() < 0.5)
            im = ax.images[0]
            arr, ext = np.asarray(im.get_array()), im.get_extent()
            up = im.origin == "lower"
            if list(ext) != [0, 1, 0, 1]:
                t["exc"] = f"extent {ext}"
            for _ in range(12):
                h, v = rng.randrange(256), rng.randrange(256)
                row = v if up else 255 - v
                t["q"].append(dict(h=h, v=v, rgba=ints(arr[row, h])))
        except Exception as e:
            t["exc"] = repr(e)[:300]
        plt.close(fig)
        trace.append(t)
        c.count("maps")
        if i % 3 == 0:
            # mixed in the other colour space
            t = dict(op="same", clause="mixed-as-hue-and-saturation", tol=30, a=[], b=[], exc="")
            try:
                hsv = [rgb_to_hsv(x["given"][:3]).tolist() + [x["rgba"][3] / 8] for x in cs]
                at = [[v / 255 for v in x["at"]] for x in cs]
                a = cmaps.LinearSegmentedCmap2DHSV([x["given"] for x in cs], at)
                b = cmaps.LinearSegmentedCmap2D(hsv, at)
                h, v = np.linspace(0, 1, 23), np.linspace(1, 0, 23) ** 2
                h, v = [x.ravel() for x in np.meshgrid(h, v)]
                x, y = np.asarray(a(h, v), dtype="f8"), np.asarray(b(h, v), dtype="f8")
                y = np.concatenate([hsv_to_rgb(np.clip(y[:, :3], 0, 1)), y[:, 3:]], axis=1)
                ok = np.isfinite(x).all(axis=1) & np.isfinite(y).all(axis=1)
                t.update(a=np.ravel(ints(x[ok])).tolist(), b=np.ravel(ints(y[ok])).tolist())
            except Exception as e:
                t["exc"] = repr(e)[:300]
            trace.append(t)
    for _ in range(c.n(20, 200)):
        from PIL import Image
        rows, cols = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 3, 5, 8])
        mode = rng.choice(["RGBA", "RGB", "L", "P"])
        px = np.array([[[rng.randrange(256) for _ in range(4)] for _ in range(cols)] for _ in range(rows)], dtype=np.uint8)
        im = Image.fromarray(px).convert("RGBA")
        im = im.convert("RGB").convert(mode) if mode != "RGBA" else im
        full = np.asarray(im.convert("RGBA"), dtype="f8") / 255
        path = c.path("map.png")
        im.save(path)
        trace.append(apply(c, dict(op="picture", grid=ints(full)), cmaps.ImageCmap2D(filename=path)))
        c.count("pictures")
    b = cmaps.bower
    t = dict(op="map", colors=[dict(at=[0, 0], rgba=[8, 0, 0, 8]), dict(at=[255, 0], rgba=[0, 8, 0, 8]), dict(at=[0, 255], rgba=[0, 0, 8, 8]),
                               dict(at=[255, 255], rgba=[0, 0, 0, 8])])
    for _ in range(5):
        trace.append(apply(c, dict(t), b))


def body(c):
    warnings.simplefilter("ignore")
    import matplotlib
    matplotlib.use("Agg")
    rng = c.rng
    K = dict(N1=2, N2=c.n(2, 3), N3=2, Values="{0, 2}", M=2, Variant="code", Emit=False)
    c.model(tlc.run("Layers", tlc.cfg_text(K, spec="Spec", invariants=["Correct"], properties=["Ends"]), workers=8, timeout=800), "Layers")
    for v in ("last", "turned", "first", "front", "carry"):
        r = tlc.run("Layers", tlc.cfg_text(dict(K, N2=2, Variant=v), spec="Spec", invariants=["Correct"]), workers=8, allow_violation=True)
        if not r.violated:
            raise tlc.ModelError(f"variant {v} not refuted")
    g = tlc.run("Layers", tlc.cfg_text(dict(K, N1=2, N2=3, N3=1 + c.n(0, 1), Values="{0, 1, 3}" if not c.thorough else "{0, 3}", Emit=True), spec="Spec",
                                       invariants=["Correct", "EmitCase"]), workers=8)
    c.model(g, "Layers-cases")
    cases = [dict(r) for r in g.records]
    rng.shuffle(cases)
    trace = []
    for rec in cases[:c.n(250, 2500)]:
        trace.append(render(c, rec["data"], [0, 1]))
        c.count("replayed")
    for _ in range(c.n(150, 2000)):
        n = [rng.choice([1, 2, 3, 5]) for _ in range(3)]
        n[2] = min(n[2], 4)
        trace.append(render(c, [[[rng.randrange(-6, 11) for _ in range(n[2])] for _ in range(n[1])] for _ in range(n[0])]))
        c.count("random")
    for _ in range(c.n(12, 100)):
        trace.append(options(c))
    maps(c, trace)
    validate(c, "LayerTrace", trace, keyf=lambda ev, cl: (ev["op"] if cl != "colour-axes-in-order" else "2D colour maps") + ":" + cl)
    c.assumptions += ["where no colour is near, the colour of a map is not judged", "images are judged where their range is not smaller than rounding"]


if __name__ == "__main__":
    sys.exit(common.main("V04", body))
