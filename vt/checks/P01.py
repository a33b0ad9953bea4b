"""P01: deposition for power spectra (Mesh.tla, MeshTrace.tla)."""
import itertools
import sys
import warnings

import numpy as np

from vt import common, snap, tlc, workers
from vt.checks.R02 import validate

EMPTY = dict(cells=[], e=0, comoving=True, exc="")


def sparse(grid, unit):
    """Occupied cells; weights are counted in `unit`, which every value must be a multiple of."""
    cells = []
    for ijk in zip(*np.nonzero(grid)):
        v = float(grid[ijk]) / unit
        m = int(round(v)) if np.isfinite(v) and abs(v - round(v)) < 1e-3 and abs(v) < 2**30 else -1
        cells.append(dict(c=[int(i) for i in ijk], m=m))
    return cells


class Case:
    """Particles with coordinates that are known exactly, or to within rounding (s # 0)."""

    def __init__(self, rng, box, n, F, count, D=None):
        self.n, self.F, self.count = n, F, count
        # D units per axis; cells begin at multiples of D / (n F)
        self.D = n * F * 8 if D is None else D
        self.b = [self.D] * 3
        self.box = box
        self.ps = []
        self.dyadic = all(float(x).hex().split("p")[0] in ("0x1.0000000000000",) for x in box)

    def add(self, rng, x, s, m):
        self.ps.append(dict(x=list(x), s=list(s), m=m))

    def random(self, rng, count, edge=1):
        step = self.D // (self.n * self.F)
        for i in range(count):
            x, s = [], []
            for a in range(3):
                k = rng.randrange(self.n * self.F)
                x.append(k * step + rng.randrange(1, step))
                s.append(0)
                if rng.random() < 0.3:
                    x[a] += rng.choice([-2, -1, 1, 3]) * self.D
            if i < edge:
                for a in range(3):
                    r = rng.random()
                    if r < 0.5:
                        continue
                    if r < 0.65:
                        x[a], s[a] = rng.choice([(0, 0), (self.D, 0), (0, 1), (0, -1), (self.D, -1), (self.D, 1), (-self.D, 0)])
                    elif r < 0.8 or not self.dyadic or self.n & (self.n - 1):
                        x[a], s[a] = rng.randrange(self.n * self.F + 1) * step, rng.choice([-1, 1, 2])
                    else:
                        x[a], s[a] = rng.randrange(self.n * self.F + 1) * step, 0
            self.ps.append(dict(x=x, s=s, m=rng.choice([1, 1, 2, 3, 7])))

    def coords(self):
        out = np.zeros((len(self.ps), 3))
        for i, p in enumerate(self.ps):
            for a in range(3):
                v = p["x"][a] * (self.box[a] / self.D) if self.dyadic else p["x"][a] / self.D * self.box[a]
                s = p["s"][a]
                if s == 1:
                    v = np.nextafter(v, 1e300)
                elif s == -1:
                    v = np.nextafter(v, -1e300) if v or p["x"][a] else -1e-300
                out[i, a] = v
        return out

    def masses(self):
        return np.array([p["m"] for p in self.ps], dtype="f8")

    def event(self, grids, e=0, comoving=True):
        ps = [dict(p, s=[abs(s) for s in p["s"]]) for p in self.ps]
        return dict(op="mesh", n=self.n, F=self.F, b=self.b, ps=ps, grids=grids, e=e, comoving=comoving)


def raw(ps, case, fn, order=None, dtype="f4", xdtype="f8"):
    x, m = case.coords().astype(xdtype), case.masses().astype(dtype)
    if order is not None:
        x, m = x[order], m[order]
    args = dict(x=np.ascontiguousarray(x[:, 0]), y=np.ascontiguousarray(x[:, 1]), z=np.ascontiguousarray(x[:, 2]), m=m,
                res=case.n, fold=float(case.F), box_x=case.box[0], box_y=case.box[1], box_z=case.box[2])
    g = dict(EMPTY)
    try:
        out = getattr(ps, fn)(**args)
        g["cells"] = sparse(out, float((case.n * case.F) ** 3))
        if out.shape != (case.n,) * 3:
            g["exc"] = f"shape {out.shape}"
    except Exception as e:
        g["exc"] = repr(e)
    return g


def low_level(ctx):
    """Direct calls: model cases along every axis and random ones, serially, in parallel and reordered."""
    from swiftsimio.visualisation import power_spectrum as ps

    rng, out = ctx.rng, []
    for rec in ctx.args["cases"]:
        axis = rng.randrange(3)
        n, F, B = rec["n"], rec["F"], rec["B"]
        box = [rng.choice([0.5, 1.0, 4.0])] * 3
        case = Case(rng, box, n, F, len(rec["ps"]), D=B)
        pw = n & (n - 1) == 0  # cell edges are exact
        for i, x in enumerate(rec["ps"]):
            p = [1, 1, 1]
            p[axis] = x
            s = [0 if pw or (q * F * n) % B else 1 for q in p]
            if n == 3:
                s = [1 if (q * F * n) % B == 0 and (q * F) % B else 0 for q in p]
            case.add(rng, p, [2 * v for v in s], 2**i)
        order = list(range(len(case.ps)))
        rng.shuffle(order)
        out.append(case.event([raw(ps, case, "deposit"), raw(ps, case, "deposit_parallel", order)]))
        ctx.count("replayed")
    for _ in range(ctx.args["n"]):
        box = rng.choice([[1.0] * 3, [4.0, 2.0, 8.0], [142.2475] * 3, [0.7, 1.3, 3.1], [1e-3, 25.0, 1000.0]])
        case = Case(rng, box, rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 33]), rng.choice([1, 1, 2, 4, 8]), 0)
        case.random(rng, rng.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 40]), edge=rng.choice([0, 1, 2]))
        order = list(range(len(case.ps)))
        rng.shuffle(order)
        dt = rng.choice(["f4", "f8"])
        out.append(case.event([raw(ps, case, "deposit", dtype=dt), raw(ps, case, "deposit_parallel", dtype=dt),
                               raw(ps, case, "deposit_parallel", order, dtype=dt)]))
    return out


def high_level(ctx):
    """render_to_deposit on snapshots, in both frames."""
    warnings.simplefilter("ignore")
    import swiftsimio as sw
    from swiftsimio.visualisation import power_spectrum as ps

    rng, out = ctx.rng, []
    for _ in range(ctx.args["n"]):
        size = rng.choice([(4.0, 4.0, 4.0), (2.0, 4.0, 8.0), (16.0, 16.0, 16.0)])
        fold = rng.choice([0, 1, 2, 3])
        case = Case(rng, list(size), rng.choice([1, 2, 4, 5, 8]), 2**fold, 0)
        a = rng.choice([0.5, 0.25, 1.0, 0.3])
        # in the physical frame cell edges are only known to within rounding
        case.random(rng, rng.choice([1, 2, 5, 17]), edge=rng.choice([0, 1]))
        physical = rng.random() < 0.5
        if physical and a not in (0.5, 0.25, 1.0):
            for p in case.ps:
                step = case.D // (case.n * case.F)
                p["s"] = [2 if x % step == 0 else 0 for x in p["x"]]
        x = case.coords()
        w = snap.World((1, 1, 1), size, [0], {0: [(0, tuple(p)) for p in x]})
        m = case.masses()
        e = rng.choice([0.0, -3.0, 2.0])
        path = ctx.path("s.hdf5")
        snap.snapshot(path, w, a=a, fields={0: {
            "Masses": (lambda rows: m, snap.fattrs(M=1.0), None),
            "Weights": (lambda rows: m, snap.fattrs(M=1.0, L=1.0, a=e), None)}})
        d = sw.load(path)
        what = rng.choice(["masses", "weights"])
        q = getattr(d.gas, what)
        e = 0.0 if what == "masses" else e
        if physical:
            d.gas.coordinates.convert_to_physical()
            q.convert_to_physical()
            m = m * a**e
        grids = []
        unit = q.units
        L = d.metadata.boxsize.units
        for parallel in (False, True):
            for view in ("asis", "physical"):
                g = dict(EMPTY)
                try:
                    dep = ps.render_to_deposit(d.gas, case.n, what, folding=fold, parallel=parallel)
                    g["comoving"] = bool(dep.comoving)
                    g["e"] = int(round(float(dep.cosmo_factor.expr.as_powers_dict()[sw.objects.a])
                                       if dep.cosmo_factor.expr != 1 else 0.0))
                    cell = np.prod(size) / (case.n * case.F) ** 3
                    if view == "asis":
                        v = dep.to_value(unit / L**3)
                        one = (a**e / a**3 if physical else 1.0) / cell
                    else:
                        v = dep.to_physical_value(unit / L**3)
                        one = a**e / a**3 / cell
                    g["cells"] = sparse(v, one)
                except Exception as exc:
                    g["exc"] = repr(exc)
                grids.append(g)
        out.append(case.event(grids, e=int(e) - 3, comoving=not physical))
        ctx.count("rendered_physical" if physical else "rendered_comoving")
    return out


def body(c):
    inv = ["Conserved", "Correct"]
    K = dict(MaxP=c.n(3, 4), Ress="{1, 2, 3}", Folds="{1, 2}", Variant="code", Emit=False)
    c.model(tlc.run("Mesh", tlc.cfg_text(dict(K, B=4, Ws="{1, 2, 4}"), spec="Spec", invariants=inv), workers=8, timeout=800), "Mesh")
    c.model(tlc.run("Mesh", tlc.cfg_text(dict(K, B=4, MaxP=2, Ws="{1, 3}"), spec="Spec", properties=["Finishes"]), workers=8), "Mesh-liveness")
    for v in ("remainder", "overlap", "race", "nofold", "truncate"):
        r = tlc.run("Mesh", tlc.cfg_text(dict(K, B=4, MaxP=3, Ws="{1, 2, 4}", Variant=v), spec="Spec", invariants=inv), workers=8,
                    allow_violation=True)
        if not r.violated:
            raise tlc.ModelError(f"variant {v} not refuted")
    g = tlc.run("Mesh", tlc.cfg_text(dict(K, B=8, MaxP=2, Ress="{1, 2, 3, 4}", Folds="{1, 2, 4}", Ws="{1}", Emit=True), spec="Spec",
                                     invariants=inv + ["EmitCase"]), workers=8)
    c.model(g, "Mesh-cases")
    cases = [dict(r, B=8) for r in g.records]
    c.rng.shuffle(cases)
    cases = cases[:c.n(600, 4000)]
    envs = [dict(NUMBA_NUM_THREADS="1", NUMBA_BOUNDSCHECK="1"), dict(NUMBA_NUM_THREADS="2", NUMBA_BOUNDSCHECK="0"),
            dict(NUMBA_NUM_THREADS="3", NUMBA_BOUNDSCHECK="1"), dict(NUMBA_NUM_THREADS="8", NUMBA_BOUNDSCHECK="0"),
            dict(NUMBA_NUM_THREADS="16", NUMBA_BOUNDSCHECK="1")]
    jobs = [(e, dict(cases=cases[i::5], n=c.n(60, 800))) for i, e in enumerate(envs)]
    trace = workers.spawn(c, "vt.checks.P01", "low_level", jobs)
    jobs = [(e, dict(n=c.n(25, 250))) for e in envs[1:]]
    trace += workers.spawn(c, "vt.checks.P01", "high_level", jobs)
    validate(c, "MeshTrace", trace, keyf=lambda ev, cl: "mesh")
    c.assumptions += ["a point within rounding of a cell edge may go to either of the two cells"]


if __name__ == "__main__":
    sys.exit(common.main("P01", body))
