"""M04: property constraints by physical value (PropOps/PropMask/PropTrace)."""
import sys

import numpy as np
import unyt

from vt import common, snap, tlc
from vt.checks.R02 import validate
from vt.remote import RemoteFile

INF = dict(m=0, p=0, u=0, phys=False)


def bound(sw, meta, f, b, e=None, wrong=None):
    """The bound b of a field f as the user would give it."""
    v = float(b["m"]) * 2.0 ** b["p"] if b["inf"] == 0 else b["inf"] * np.inf
    base = unyt.Unit("vtlen") if b["u"] == 1 else (unyt.Unit("vtlem") if b["u"] == -1 else unyt.Unit("Mpc"))
    unit = base ** f["d"] if f["d"] else unyt.dimensionless
    if wrong == "dims":
        unit = unit * unyt.kg
    return sw.cosmo_quantity(v, unit, comoving=not b["phys"], scale_factor=meta.a,
                             scale_exponent=(f["e"] + (1 if wrong == "exponent" else 0)))


def attrs(f):
    return snap.fattrs(L=float(f["d"]), a=float(f["e"]), physical=f["phys"])


def body(c):
    import swiftsimio as sw

    for n, s in (("vtlen", 8.0), ("vtlem", 0.125)):
        if n not in unyt.unit_registry.default_unit_registry:
            unyt.define_unit(n, s * unyt.unyt_quantity(1.0, "Mpc"))
    V = 3
    m = tlc.run("PropMask", tlc.cfg_text(
        dict(V=V, MaxK=1, MaxE=c.n(1, 3), Emit=True), spec="Spec",
        invariants=["FrameIndependent", "HalfOpen", "Idempotent", "EmitCase"], properties=["Shrinks"]),
        coverage=True)
    c.model(m, "PropMask")
    recs = list(m.records)
    c.rng.shuffle(recs)
    files, masks = {}, {}
    for r in recs[: c.n(1000, 40000)]:
        f, k = r["f"], r["k"]
        key = (k, f["phys"], f["e"], f["d"])
        if key not in files:
            p = c.path("p%d_%d_%d_%d.hdf5" % key)
            w = snap.World((1, 1, 1), (8, 8, 8), [0], {0: [(0, (1, 1, 1))] * (V + 1)})
            snap.snapshot(p, w, a=2.0 ** -k, links=False, has_type=[1] + [0] * 6,
                          fields={0: {"Value": (lambda rows: rows.astype("f8"), attrs(f), None)}})
            files[key] = p
        msk = sw.mask(files[key])
        msk.constrain_property("gas", "value", bound(sw, msk.metadata, f, r["lo"]),
                               bound(sw, msk.metadata, f, r["hi"]))
        got = [int(i) for i in np.where(msk.gas)[0]] if not msk.range_mask else \
            [int(i) for a, b in msk.gas for i in range(a, b)]
        c.traces += 1
        if got != r["sel"]:
            extra = set(got) - set(r["sel"])
            c.violation("replay", "only-rows-inside-the-bounds" if extra else "every-row-inside-the-bounds",
                        case=r, got=got)
    c.sample(recs[0])

    rng = c.rng
    trace = []
    for it in range(c.n(60, 900)):
        k = rng.choice([0, 1, 2])
        soap = rng.random() < 0.3
        ng = rng.choice([1, 2, 3]) if not soap else rng.choice([1, 2])
        types = sorted(rng.sample([0, 1, 4, 5], ng)) if not soap else [0]
        fields = [dict(phys=rng.random() < 0.3, e=rng.randint(-3, 3), d=rng.choice([0, 1, -1, 2]),
                       dt=rng.choice(["f8", "f4", ">f4", "i4", "i8", "u2"]), ch=rng.choice([None, 2, 5]))
                  for _ in range(3)]
        n = [rng.choice([0, 1, 5, 40]) for _ in range(ng)]
        if soap:
            n = [n[0]] * ng
        vals = [[[rng.randint(0, 6) for _ in range(n[g])] for _ in fields] for g in range(ng)]
        spec = [{f"Value{i}": ((lambda v, dt: lambda rows: np.array(v, dtype=dt))(vals[g][i], f["dt"]),
                               attrs(f), f["ch"]) for i, f in enumerate(fields)} for g in range(ng)]
        p = c.path(f"t{it}.hdf5")
        w = snap.World((1, 1, 1), (8, 8, 8), [0], {t: [(0, (1, 1, 1))] * n[i] for i, t in enumerate(types)})
        if soap:
            hs = ["InputHalos", "BoundSubhalo"][:ng]
            names = ["input_halos", "bound_subhalo"][:ng]
            snap.soap(p, w, groups=hs, a=2.0 ** -k, fields=dict(zip(hs, spec)),
                      output_type=rng.choice(["SOAP", "SOAPSubset"]))
        else:
            names = [snap.NAMES[t] for t in types]
            snap.snapshot(p, w, a=2.0 ** -k, links=False, fields=dict(zip(types, spec)),
                          has_type=[int(t in types) for t in range(7)])
        for _ in range(4):
            remote = RemoteFile(p) if rng.random() < 0.25 else None
            src = remote or p
            ev = dict(k=k, shared=soap, fields=[{x: f[x] for x in ("phys", "e", "d")} for f in fields],
                      vals=vals, n=n, calls=[], rows=[], exc="")
            try:
                msk = sw.mask(src)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    g, fi = rng.randrange(ng), rng.randrange(3)
                    f = fields[fi]
                    wrong = rng.choice(["dims", "exponent"]) if rng.random() < 0.1 else None
                    if f["d"] == 0 and wrong:  # unyt lets dimensionless values compare with anything
                        wrong = "exponent"
                    if k == 0 and wrong == "exponent":  # a = 1: every exponent gives the same factor
                        wrong = None

                    def pick():
                        if rng.random() < 0.12:
                            return dict(INF, inf=rng.choice([-1, 1]), phys=rng.random() < 0.5)
                        phys, u = rng.random() < 0.5, rng.choice([-1, 0, 0, 1])
                        # physical target m 2^q near a stored value
                        mm, q = rng.choice([(x, 0) for x in range(-1, 8)] + [(x, -1) for x in range(1, 13, 2)])
                        q += 0 if f["phys"] else -k * f["e"]
                        return dict(m=mm, p=q - 3 * u * f["d"] + (0 if phys else k * f["e"]), u=u, phys=phys, inf=0)

                    lo, hi = pick(), pick()
                    ok = True
                    try:
                        msk.constrain_property(names[g], f"value{fi}", bound(sw, msk.metadata, f, lo, wrong=wrong),
                                               bound(sw, msk.metadata, f, hi, wrong=wrong))
                    except Exception as e:
                        ok = False
                        ev.setdefault("errors", []).append(repr(e)[:200])
                    # bounds that differ in dimensions or exponent cannot be compared
                    ev["calls"].append(dict(g=g + 1, f=fi + 1, lo=lo, hi=hi, ok=ok, bad=wrong is not None))
                d = sw.load(src, mask=msk)
                for g in range(ng):
                    grp = getattr(d, names[g])
                    ids = grp.row_index if soap else grp.particle_ids
                    ev["rows"].append([int(x) % 1000 for x in np.asarray(ids)])
            except Exception as e:
                ev["exc"] = repr(e)
            if remote:
                remote.shut()
            trace.append(ev)
    validate(c, "PropTrace", trace, keyf=lambda ev, cl: "soap" if ev["shared"] else "snap")


if __name__ == "__main__":
    sys.exit(common.main("M04", body))
