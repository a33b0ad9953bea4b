"""P02: power spectra (Spectrum.tla, FourierOps.tla, SpectrumTrace.tla)."""
import math
import sys
import warnings

import numpy as np

from vt import common, snap, tlc, workers
from vt.checks.R02 import validate

MAXI = 2**30


def ints(v, scale):
    v = np.asarray(v, dtype="f8") * scale
    v = np.where(np.isfinite(v), np.clip(v, -MAXI, MAXI), MAXI)
    return [int(x) for x in np.rint(v)]


def roots(top):
    return [math.isqrt(10**6 * i) for i in range(top + 1)]


def exponent(x):
    from swiftsimio.objects import a
    expr = x.cosmo_factor.expr
    return int(round(math.log2(float(expr.subs(a, 2.0))))) if expr != 1 else 0


class Box:
    """A cubic box, in either frame."""

    def __init__(self, rng):
        from swiftsimio import cosmo_array
        import unyt
        self.a = rng.choice([0.5, 0.25, 1.0, 0.3])
        self.L = rng.choice([1.0, 4.0, 25.0, 142.0])  # comoving
        self.physical = rng.random() < 0.5
        self.unit = unyt.Mpc
        self.array = cosmo_array([self.L * (self.a if self.physical else 1.0)] * 3, unyt.Mpc, comoving=not self.physical,
                                 scale_factor=self.a, scale_exponent=1)

    def wavenumbers(self, x, physical):
        """x times 2 pi / L."""
        from swiftsimio import cosmo_array
        v = np.asarray(x, dtype="f8") * 2 * np.pi / self.L / (self.a if physical else 1.0)
        return cosmo_array(v, self.unit**-1, comoving=not physical, scale_factor=self.a, scale_exponent=-1)

    def read(self, waves, power):
        frames = []
        for q, want, dim in ((waves, -1, self.unit**-1), (power, 3, self.unit**3)):
            frames.append(dict(comoving=bool(q.comoving), e=exponent(q), want=want, unit=bool(q.units.dimensions == dim.dimensions)))
        w = p = []
        if all(f["unit"] for f in frames):
            w = ints(waves.to_physical_value(self.unit**-1) * self.L * self.a / (2 * np.pi), 1000)
            p = ints(power.to_physical_value(self.unit**3) / (self.L * self.a) ** 3, 10000)
        return w, p, frames


def mesh_field(rng, n, f, box, total=90):
    """A mesh of integers, with the cells and the array."""
    from swiftsimio import cosmo_array
    import unyt
    rho = np.zeros((n, n, n), dtype="i8")
    left = rng.randrange(1, total)
    while left > 0:
        m = min(left, rng.choice([1, 1, 2, 5]))
        rho[tuple(rng.randrange(n) for _ in range(3))] += m
        left -= m
    cells = [dict(c=[int(i) for i in ijk], m=int(rho[ijk])) for ijk in zip(*np.nonzero(rho))]
    dt = rng.choice(["f4", "f8"])
    return cells, cosmo_array(rho.astype(dt), unyt.Msun / unyt.Mpc**3, comoving=rng.random() < 0.5, scale_factor=box.a, scale_exponent=-3)


def wave_field(rng, n, f, box):
    from swiftsimio import cosmo_array
    import unyt
    top = n - 1 - n // 2
    ws = []
    g = np.indices((n, n, n))
    d = np.zeros((n, n, n))
    for _ in range(rng.choice([1, 2, 3])):
        k = [rng.randrange(-(n // 2), top + 1) for _ in range(3)]
        if k == [0, 0, 0]:
            continue
        a, p = rng.choice([10, 20, 36]), rng.randrange(4)
        ws.append(dict(k=k, a=a, p=p))
        d += a / 100 * np.cos(2 * np.pi / n * sum(k[i] * g[i] for i in range(3)) + p * np.pi / 2)
    mean = rng.choice([1.0, 7.5, 1e4])
    return ws, cosmo_array(mean * (1 + d), unyt.Msun / unyt.Mpc**3, comoving=rng.random() < 0.5, scale_factor=box.a, scale_exponent=-3)


def bins(rng, top):
    """Bin edges: integers that squared wavenumbers are compared to."""
    k = rng.choice([1, 2, 4, 6])
    return sorted(rng.sample(range(0, top + 2), min(k + 1, top + 1)))


def spectra(ctx):
    warnings.simplefilter("ignore")
    import unyt
    import swiftsimio as sw
    from swiftsimio.visualisation import power_spectrum as ps

    rng, out = ctx.rng, []
    todo = [("mesh", rec) for rec in ctx.args["cases"]] + [(rng.choice(["mesh", "waves", "waves", "render"]), None) for _ in range(ctx.args["n"])]
    for kind, rec in todo:
        box = Box(rng)
        f = rng.choice([0, 0, 1, 2, 3]) if kind != "waves" else rng.choice([0, 1])
        n = rng.choice([2, 4, 4]) if kind != "waves" else rng.choice([3, 4, 5, 6, 8, 9])
        deps = []
        cross = rng.random() < 0.4
        if rec is not None:
            # a line of the model along one of the axes
            from swiftsimio import cosmo_array
            n, axis = 4, rng.randrange(3)
            rho = np.zeros((4, 4, 4), dtype="f4")
            cells = []
            for i, m in enumerate(rec["m"]):
                if m:
                    c = [0, 0, 0]
                    c[axis] = i
                    cells.append(dict(c=c, m=m))
                    rho[tuple(c)] = m
            if not cells:
                continue
            deps.append((cells, cosmo_array(rho, unyt.Msun / unyt.Mpc**3, comoving=True, scale_factor=box.a, scale_exponent=-3)))
            ctx.count("replayed")
        elif kind == "mesh":
            deps.append(mesh_field(rng, n, f, box))
        elif kind == "waves":
            deps.append(wave_field(rng, n, f, box))
        else:
            # particles, gridded by the implementation
            px = box.L / 2
            N = rng.choice([1, 3, 8, 20])
            F = 2**f
            fine = [[rng.randrange(n * F) for _ in range(3)] for _ in range(N)]
            m = np.array([rng.choice([1, 2, 3]) for _ in range(N)], dtype="f8")
            x = (np.array(fine) + 0.5) * (box.L / (n * F))
            w = snap.World((1, 1, 1), (box.L,) * 3, [0], {0: [(0, tuple(r)) for r in x]})
            path = ctx.path("s.hdf5")
            snap.snapshot(path, w, a=box.a, fields={0: {"Masses": (lambda rows: m, snap.fattrs(M=1.0), None)}})
            d = sw.load(path)
            if rng.random() < 0.5:
                d.gas.coordinates.convert_to_physical()
                d.gas.masses.convert_to_physical()
            box.array = d.metadata.boxsize.to_physical() if box.physical else d.metadata.boxsize
            tot = {}
            for c, v in zip(fine, m):
                q = tuple(i % n for i in c)
                tot[q] = tot.get(q, 0) + int(v)
            cells = [dict(c=list(q), m=v) for q, v in tot.items()]
            deps.append((cells, ps.render_to_deposit(d.gas, n, "masses", folding=f, parallel=rng.random() < 0.3)))
        if cross:
            deps.append(mesh_field(rng, n, f, box) if kind != "waves" else wave_field(rng, n, f, box))
            if kind == "waves" and rng.random() < 0.7 and deps[0][0]:  # something in common
                k = deps[0][0][0]["k"]
                ws = [dict(k=k, a=rng.choice([10, 30]), p=rng.randrange(4))]
                g = np.indices((n, n, n))
                v = 1 + ws[0]["a"] / 100 * np.cos(2 * np.pi / n * sum(k[i] * g[i] for i in range(3)) + ws[0]["p"] * np.pi / 2)
                deps[1] = (ws, type(deps[1][1])(v, unyt.Msun / unyt.Mpc**3, comoving=True, scale_factor=box.a, scale_exponent=-3))
        top = 3 * (n // 2) ** 2 * 4**f
        args, mixed = dict(folding=f), False
        if rng.random() < 0.4:
            edges = [(i * i + i) * 4**f for i in range(n // 2 + (1 if n >= 1 else 0))]
            edges = [e if e else 0 for e in edges]
            if len(edges) < 2:
                continue
        else:
            edges = bins(rng, top)
            phys = rng.random() < 0.5
            mixed = phys != box.physical
            args["wavenumber_bins"] = box.wavenumbers([math.sqrt(e + 0.5) for e in edges], phys)
        noise = rng.choice([0, 0, 10, 200])
        if noise:
            args["shot_noise_norm"] = noise
        if cross:
            args["cross_deposition"] = deps[1][1]
        if rng.random() < 0.3:
            args["workers"] = rng.choice([1, 2, 4])
        t = dict(op="spectrum", kind="waves" if kind == "waves" else "mesh", n=n, f=f, A=deps[0][0], B=deps[1 if cross else 0][0],
                 edges=edges, roots=roots(top // 4**f), noise=10000 // noise if noise else 0, counts=[], power=[], wave=[], frames=[],
                 comoving=not box.physical, exc="")
        try:
            k, p, c = ps.deposition_to_power_spectrum(deps[0][1], box.array, **args)
            t["counts"] = [int(i) for i in c]
            t["wave"], t["power"], t["frames"] = box.read(k, p)
            if mixed:  # either frame
                for fr in t["frames"]:
                    fr["comoving"] = t["comoving"]
        except Exception as e:
            t["exc"] = repr(e)[:300]
        if t["power"] == [] and not t["exc"]:
            t.update(power=[MAXI] * len(t["counts"]), wave=[MAXI] * len(t["counts"]))
        out.append(t)
        ctx.count(kind)
    return out


def stitched(ctx):
    """Spectra of several folds put together."""
    warnings.simplefilter("ignore")
    from swiftsimio.visualisation import power_spectrum as ps

    rng, out = ctx.rng, []
    for _ in range(ctx.args["n"]):
        box = Box(rng)
        folds = sorted(rng.sample([0, 1, 2, 3], rng.choice([1, 2, 3])))
        kind = rng.choice(["mesh", "waves"])
        ns = [rng.choice([2, 4, 4]) if kind == "mesh" else rng.choice([3, 4, 6, 8]) for _ in folds]
        if rng.random() < 0.7:
            ns = [ns[0]] * len(ns)
        make = mesh_field if kind == "mesh" else wave_field
        A = [make(rng, n, f, box) for n, f in zip(ns, folds)]
        cross = rng.random() < 0.3
        B = [make(rng, n, f, box) for n, f in zip(ns, folds)] if cross else A
        top = max(3 * (n // 2) ** 2 * 4**f for n, f in zip(ns, folds))
        # two edges are chosen, the others follow; none may be on a squared wavenumber
        nb = rng.choice([1, 2, 3, 5])
        log = rng.random() < 0.5
        while True:
            k0, k1 = sorted(math.sqrt(rng.randrange(0, top + 2) + 0.5) for _ in range(2))
            e = np.geomspace(k0, k1, nb + 1) if log else np.linspace(k0, k1, nb + 1)
            if k1 > k0 and all(abs(x * x - round(x * x)) > 0.02 for x in e):
                break
        edges = [int(math.floor(x * x)) for x in e]
        phys = rng.random() < 0.5
        kr = box.wavenumbers([k0, k1], phys)
        minimal = rng.choice([0, 0, 1, 6, 10, 30])
        frac = rng.choice([0, 0, 75, 50, 100])
        noise = rng.choice([0, 0, 10, 200])
        args = dict(boxsize=box.array, number_of_wavenumber_bins=nb, wavenumber_range=(kr[0], kr[1]) if rng.random() < 0.5 else kr,
                    log_wavenumber_bins=log, minimal_sample_modes=minimal)
        if frac:
            args["cutoff_above_wavenumber_fraction"] = frac / 100
        if noise:
            args["shot_noise_norm"] = noise
        order = list(range(len(folds)))
        rng.shuffle(order)
        args["depositions"] = {folds[j]: A[j][1] for j in order}
        if cross:
            args["cross_depositions"] = {folds[j]: B[j][1] for j in order}
        t = dict(op="stitch", kind=kind, folds=folds, ns=ns, A=[x[0] for x in A], B=[x[0] for x in B], edges=edges,
                 roots=roots(max(3 * (n // 2) ** 2 for n in ns)), noise=10000 // noise if noise else 0, minimal=minimal, frac=frac, tracker=[], power=[],
                 wave=[], centres=[int(round(500 * (e[i] + e[i + 1]))) for i in range(nb)], frames=[], comoving=not box.physical, exc="",
                 kmode=phys)
        try:
            b, k, p, tr = ps.folded_depositions_to_power_spectrum(**args)
            t["tracker"] = [int(i) for i in tr]
            t["wave"], t["power"], t["frames"] = box.read(k, p)
            # wavenumbers come in the frame of the range that was asked for
            if t["frames"][0]["comoving"] == (not phys):
                t["frames"][0]["comoving"] = not box.physical
        except Exception as x:
            t["exc"] = repr(x)[:300]
        if t["power"] == [] and not t["exc"]:
            t.update(power=[MAXI] * nb, wave=[MAXI] * nb)
        out.append(t)
        ctx.count("stitched")
    return out


def body(c):
    K = dict(Folds="{0, 1, 3}", MaxCount=c.n(2, 3), Values="{1}", Variant="code", Emit=False)
    c.model(tlc.run("Spectrum", tlc.cfg_text(K, spec="Spec", invariants=["Correct"], properties=["Ends"]), workers=8, timeout=800), "Spectrum")
    for v in ("late", "forget", "fewest", "first", "cut", "order"):
        r = tlc.run("Spectrum", tlc.cfg_text(dict(K, Variant=v), spec="Spec", invariants=["Correct"]), workers=8, allow_violation=True)
        if not r.violated:
            raise tlc.ModelError(f"variant {v} not refuted")
    g = tlc.run("Spectrum", tlc.cfg_text(dict(K, Folds="{0}", MaxCount=0, Values=c.n("{0, 1, 2}", "{0, 1, 2, 3, 5}"), Emit=True), spec="Spec",
                                         invariants=["Correct", "Physics", "EmitCase"]), workers=8)
    c.model(g, "Spectrum-meshes")
    cases = [dict(r) for r in g.records]
    c.rng.shuffle(cases)
    cases = cases[:c.n(80, 600)]
    jobs = [(dict(NUMBA_NUM_THREADS=str(k)), dict(cases=cases[i::2], n=c.n(90, 900))) for i, k in enumerate((2, 8))]
    trace = workers.spawn(c, "vt.checks.P02", "spectra", jobs)
    trace += workers.spawn(c, "vt.checks.P02", "stitched", [(dict(), dict(n=c.n(80, 800)))] * 2)
    validate(c, "SpectrumTrace", trace, keyf=lambda ev, cl: f"{ev['op']}-{ev['kind']}")
    c.assumptions += ["no squared wavenumber is within rounding of the edge of a bin", "the cut between folds is anywhere between the "
                      "resolution and the Nyquist wavenumber"]


if __name__ == "__main__":
    sys.exit(common.main("P02", body))
