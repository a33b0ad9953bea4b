"""T01: statistics files (Stat.tla, StatTrace.tla)."""
import math
import pathlib
import sys

from vt import common, tlc
from vt.checks.R02 import validate
from vt.common import fan

# unit text -> (factor to SI, exponents of kg, m, s, K)
UNITS = {"gram": (1e-3, (1, 0, 0, 0)), "s": (1, (0, 0, 1, 0)), "cm": (1e-2, (0, 1, 0, 0)), "erg": (1e-7, (1, 2, -2, 0)),
         "gram * cm * s**-1": (1e-5, (1, 1, -1, 0)), "gram * cm**2 * s**-1": (1e-7, (1, 2, -1, 0)), "K": (1, (0, 0, 0, 1)),
         "gram/s": (1e-3, (1, 0, -1, 0)), "kg": (1, (1, 0, 0, 0)), "gram * cm**2 * s**-2 * K**-1": (1e-7, (1, 2, -2, -1)),
         "km/s": (1e3, (0, 1, -1, 0))}
MODEL = {"u1": (1.98841586e43, "gram"), "u2": (3.08567758e19, "s")}


def unit_key(factor, dims):
    return "%.8e|%s" % (factor, dims)


def stated(f, text):
    k, d = UNITS[text]
    return unit_key(f * k, d)


def seen(u):
    import unyt

    b = unyt.unyt_quantity(1.0, u).in_base("mks")
    d = b.units.dimensions.as_powers_dict()
    dim = tuple(int(d.get(x, 0)) for x in (unyt.dimensions.mass, unyt.dimensions.length, unyt.dimensions.time,
                                          unyt.dimensions.temperature))
    if b.units.is_dimensionless and abs(float(b.v) - 1) < 1e-14:
        return "dimensionless"
    return unit_key(float(b.v), dim)


def canon(x):
    """One text per value."""
    if isinstance(x, str):
        try:
            return str(int(x))
        except ValueError:
            x = float(x)
    if isinstance(x, int):
        return str(x)
    if not math.isfinite(x):
        return repr(x)
    return str(int(x)) if x == int(x) and abs(x) < 2**53 else repr(x)


def text(lines, rng, style):
    """The file of a sequence of lines (units are texts or keys of MODEL)."""
    out, n = [], 0
    for l in lines:
        if l["k"] == "comment":
            out.append("#" + (" " + l["text"] + ":" if l["text"] else ""))
            if l["text"] == "" and style["index"]:
                cols = sum(x["k"] == "name" for x in lines)
                out.append("#   " + "     ".join(f"({i})" for i in range(cols)))
        elif l["k"] == "name":
            out.append(f"# ({n})" + " " * style["gap"] + l["text"] + style["end"])
            n += 1
        elif l["k"] == "unit":
            out.append("#" + " " * style["indent"] + "Unit = " + l["u"])
        elif l["k"] == "names":
            out.append("#" + " " * style["lead"] + (" " * style["sep"]).join(l["toks"]) + " " * style["trail"])
        elif l["k"] == "row":
            out.append(" " * style["left"] + (" " * style["sep"]).join(l["toks"]) + " " * style["trail"])
        else:
            out.append(" " * style["trail"])
    return "\n".join(out) + ("\n" if style["newline"] else "")


def observe(c, sw, lines, name):
    rng = c.rng
    style = dict(gap=rng.choice([1, 2, 4]), end=rng.choice(["", ".", ". "]), indent=rng.choice([1, 4, 6]),
                 lead=rng.choice([1, 1, 2, 7]), sep=rng.choice([2, 3, 9]), trail=rng.choice([0, 0, 2]),
                 left=rng.choice([0, 1, 5]), newline=rng.random() < 0.9 or lines[-1]["k"] == "names",
                 index=rng.random() < 0.7)
    p = c.path(name)
    t = text(lines, rng, style)
    with open(p, "w") as f:
        f.write(t)
    ev = dict(op="stat", exc="", got=[], listed=[], text=t[:3000],
              lines=[dict(k=l["k"], text=l["text"], unit=l["unit"],
                          toks=[canon(x) for x in l["toks"]] if l["k"] == "row" else l["toks"]) for l in lines])
    try:
        d = sw.load_statistics(pathlib.Path(p) if rng.random() < 0.3 else p)
        repr(d), str(d)
        ev["listed"] = [str(x) for x in d.header_snake_case_names]
        for x in dict.fromkeys(ev["listed"]):
            if not hasattr(d, x):
                continue
            v = getattr(d, x)
            ev["got"].append(dict(name=x, unit=seen(v.units), desc=str(v.name), vals=[canon(y) for y in v.v.tolist()]))
    except Exception as e:
        ev["exc"] = repr(e)
    return ev


def line(k, text="", u="", unit="", toks=()):
    return dict(k=k, text=text, u=u, unit=unit, toks=list(toks))


def from_model(rec):
    out = []
    for l in rec["lines"]:
        u = unit = l["unit"]
        if u in MODEL:
            u, unit = "%r %s" % MODEL[u], stated(*MODEL[u])
        out.append(dict(l, u=u, unit=unit, toks=list(l["toks"])))
    return out


WORDS = ["Simulation step", "Scale-factor", "Redshift", "Total mass in the simulation", "Total kinetic energy (physical)",
         "Gas-phase entropy", "x coordinate of the centre of mass", "Time since Big Bang (cosmological run), or start",
         "Energy = kinetic + potential", "Number (1) of particles", "Mass. In the box. Unit-less"]
LABELS = ["Step", "Time", "a", "z", "Total mass", "Gas Mass", "DM Mass", "Kin. Energy", "Com_x", "Ang. Mom. x", "SFR", "N_SN",
          "Sink mass total", "BH", "E", "dE/dt", "#", "0", "Rad. Energy"]


def number(rng, kind):
    if kind == "int":
        return str(rng.choice([0, 1, -3, rng.randint(0, 10**6), 2**53 + 1, 10**18 + 7]))
    if kind == "float":
        x = rng.choice([0.0, rng.uniform(-1, 1), rng.gauss(0, 1) * 10.0 ** rng.randint(-300, 300)])
        return rng.choice(["%.17e", "%r", "%14.6e", "%.3f", "%.17E", "%+.8e", "%g"]) % x
    if kind == "odd":
        return rng.choice(["nan", "inf", "-inf", "NaN", "1E5", "1e5", "-0.0", "1.", ".5", "+4.0", "-nan"])
    return number(rng, rng.choice(["float", "odd"]) if rng.random() < 0.6 else "small")  \
        if kind == "mixed" else str(rng.randint(-9, 9))


def random_lines(rng, long=False):
    n = rng.choice([1, 2, 3, 5, 9, 14]) if not long else rng.choice([1, 2, 3])
    out = [line("comment", "Global statistics")]
    labels = rng.sample(LABELS, n)
    for i in range(n):
        out.append(line("name", rng.choice(WORDS)))
        r = rng.random()
        if r < 0.6:
            f, u = rng.choice([1.0, 1.98841586e43, 3.0856776e19, 6.67e-8, 10.0 ** rng.randint(-30, 40)]), rng.choice(list(UNITS))
            out.append(line("unit", u=rng.choice(["%r %s", "%.12e %s"]) % (f, u), unit=stated(f, u)))
        elif r < 0.85:
            out.append(line("unit", u="dimensionless", unit="dimensionless"))
        if rng.random() < 0.1:
            out.append(line("comment", "Physical quantity"))
    out.append(line("comment"))
    out.append(line("names", toks=labels))
    kinds = [rng.choice(["int", "float", "float", "mixed", "odd", "small"]) for _ in range(n)]
    rows = rng.choice([0, 1, 2, 7, 60]) if not long else rng.choice([1100, 2500, 4500])
    for _ in range(rows):
        out.append(line("row", toks=[number(rng, k) for k in kinds]))
        if rng.random() < 0.02:
            out.append(line("blank"))
    if rng.random() < 0.2:
        out.append(line("blank"))
    return out


def body(c):
    import swiftsimio as sw

    K = dict(spec="Spec", invariants=["Correct", "Progress"], properties=["Reads"])
    m = tlc.run("Stat", tlc.cfg_text(dict(MaxCols=2, MaxRows=c.n(1, 2), Variant="code", Emit=True),
                                     **dict(K, invariants=["Correct", "Progress", "EmitCase"])), workers=8, timeout=800)
    c.model(m, "Stat")
    for v in ("shared", "firsttype", "blankrow", "needsrow"):
        r = tlc.run("Stat", tlc.cfg_text(dict(MaxCols=2, MaxRows=2 if v == "firsttype" else 1, Variant=v, Emit=False),
                                         spec="Spec", invariants=["Correct"]), workers=8, allow_violation=True)
        if r.violated != "Correct":
            raise tlc.ModelError(f"variant {v} not refuted")
    c.rng.shuffle(m.records)
    take = m.records[:c.n(1500, 20000)]

    def replay(c, n):
        i = int(c.tmp.rsplit("/", 1)[1].split("_")[0])
        return [observe(c, sw, from_model(r), "m.txt") for r in take[i::8]]

    trace = fan(c, replay, 8)
    trace += fan(c, lambda c, n: [observe(c, sw, random_lines(c.rng, i == 0), "s.txt") for i in range(n)], c.n(600, 6000))
    validate(c, "StatTrace", trace, keyf=lambda ev, cl: "stat")
    c.assumptions += ["column labels are separated by at least two blanks, and a column has at most one unit line",
                      "units are those the units library can read"]


if __name__ == "__main__":
    sys.exit(common.main("T01", body))
