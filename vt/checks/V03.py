"""V03: generated smoothing lengths (Neighbours.tla, NearTrace.tla)."""
import sys
import warnings

import numpy as np

from vt import common, tlc
from vt.checks.P02 import exponent
from vt.checks.R02 import validate


def array(v, unit, a, physical, scale=1.0):
    """A comoving length given in units of `unit` / scale."""
    from swiftsimio import cosmo_array
    return cosmo_array(np.asarray(v, dtype="f8") * scale * (a if physical else 1.0), unit, comoving=not physical, scale_factor=a,
                       scale_exponent=1)


def generate(c, x, L, k, s, dim, rng):
    import unyt
    from swiftsimio.visualisation.smoothing_length import generate_smoothing_lengths

    a = rng.choice([0.5, 0.25, 1.0, 0.3])
    px, pb = rng.random() < 0.5, rng.random() < 0.5
    g = rng.choice([1.825742, 2.018932, 1.0])
    # boxes may be given in other units than coordinates
    box = array(L, unyt.Mpc, a, pb)
    if rng.random() < 0.4:
        box = array(np.array(L, dtype="f8") * 1000, unyt.kpc, a, pb)
    t = dict(h=[], comoving=True, want=dict(comoving=not px), e=0, unit=False, exc="", k=k, s=s, dim=dim, L=list(L), count=0)
    co = array(np.array(x, dtype="f8").reshape(len(x), len(L)), unyt.Mpc, a, px)
    v = np.zeros(0)
    try:
        n = k * s + rng.randrange(s)
        args = dict(neighbours=n, speedup_fac=s, dimension=dim)
        if dim == 3 and rng.random() < 0.5:
            args.pop("dimension")
        if s == 2 and rng.random() < 0.5:
            args.pop("speedup_fac")
        h = generate_smoothing_lengths(co, box, g, **args)
        t.update(comoving=bool(h.comoving), e=exponent(h), unit=bool(h.units.dimensions == co.units.dimensions), count=int(h.size))
        if t["unit"]:
            v = h.to_comoving_value(unyt.Mpc) * g
            v = np.where(np.isfinite(v), v, 1e3) ** 2 * 1000
    except Exception as e:
        t["exc"] = repr(e)[:300]
        t["unit"], t["e"], t["comoving"] = True, 1, not px
    return t, np.rint(np.clip(v, 0, 2**30)).astype("i8")


def speed(rng, dim):
    return rng.choice([1, 2, 3, 4, 8, 16]) if dim == 3 else rng.choice([1, 2, 4])


def body(c):
    warnings.simplefilter("ignore")
    rng = c.rng
    K = dict(L=5, MaxN=c.n(4, 5), Blocks="{1, 2, 3, 4}", Ks="{1, 2, 3}", Variant="code", Emit=False)
    inv = ["Right", "Complete"]
    c.model(tlc.run("Neighbours", tlc.cfg_text(K, spec="Spec", invariants=inv, properties=["Ends"]), workers=8, timeout=800), "Neighbours")
    for v in ("floor", "short", "own", "flat", "other"):
        r = tlc.run("Neighbours", tlc.cfg_text(dict(K, MaxN=4, Variant=v), spec="Spec", invariants=inv), workers=8, allow_violation=True)
        if not r.violated:
            raise tlc.ModelError(f"variant {v} not refuted")
    g = tlc.run("Neighbours", tlc.cfg_text(dict(K, L=7, MaxN=4, Blocks="{2}", Ks="{2, 3}", Emit=True), spec="Spec", invariants=inv + ["EmitCase"]),
                workers=8)
    c.model(g, "Neighbours-cases")
    cases = [dict(r) for r in g.records]
    rng.shuffle(cases)
    trace = []
    for rec in cases[:c.n(150, 1500)]:
        axis = rng.randrange(3)
        L = [rng.choice([7, 9]) for _ in range(3)]
        L[axis] = 7
        x = [[v if i == axis else 3 for i in range(3)] for v in rec["x"]]
        t, h = generate(c, x, L, rec["k"], speed(rng, 3), 3, rng)
        trace.append(dict(t, op="near", x=x, h=h.tolist()))
        c.count("replayed")
    for _ in range(c.n(120, 1500)):
        dim = rng.choice([3, 3, 3, 2, 1])
        L = [rng.choice([5, 10, 40, 300]) for _ in range(3 if dim == 3 else dim)]
        n = rng.choice([0, 2, 3, 8, 30])
        x = [[rng.randrange(v) for v in L] for _ in range(n)]
        k = rng.randrange(2, max(n, 2) + 1)
        t, h = generate(c, x, L, k, speed(rng, dim), dim, rng)
        trace.append(dict(t, op="near", x=x, h=h.tolist()))
        c.count("random")
    # more than one block of the implementation's: clusters too far apart to see each other
    for _ in range(c.n(3, 12)):
        m = rng.choice([4, 5, 7])
        total = rng.choice([65536, 65537, 65535, 131072, 70000])
        sizes = [[[0, 0, 0]] + [[rng.randrange(0, 9) for _ in range(3)] for _ in range(m - 1)] for _ in range(5)]
        ncl = -(-total // m)
        side = int(np.ceil(ncl ** (1 / 3)))
        kinds = np.array([rng.randrange(5) for _ in range(ncl)])
        base = np.array([[i // (side * side), i // side % side, i % side] for i in range(ncl)]) * 60
        x = (base[:, None, :] + np.array(sizes)[kinds]).reshape(-1, 3)
        L = [60 * side] * 3
        k = rng.randrange(2, m)
        # the last cluster may not be whole
        t, h = generate(c, x[:total], L, k, speed(rng, 3), 3, rng)
        some = set(range(0, 10)) | set(range(65530, 65542)) | set(range(total - 12, total)) | {rng.randrange(total) for _ in range(100)}
        got = [dict(c=int(kinds[i // m]) + 1, i=i % m + 1, h=int(h[i])) for i in sorted(some)
               if i < min(len(h), total - total % m)]
        trace.append(dict(t, op="clusters", members=sizes, total=total, h=got))
        c.count("clusters")
    validate(c, "NearTrace", trace, keyf=lambda ev, cl: ev["op"])
    c.assumptions += ["at least two neighbours are looked for, and there are as many particles", "coordinates are inside the box"]


if __name__ == "__main__":
    sys.exit(common.main("V03", body))
