"""Shared driver of D03 and D04 (MetaOps/Names/MetaTrace)."""
import math

import h5py
import numpy as np

from vt import obs, snap, tlc

SOAP = ["BoundSubhalo", "InputHalos", "InputHalos/HBTplus", "ExclusiveSphere/100kpc", "InclusiveSphere/1000kpc",
        "ProjectedAperture/50kpc/projx", "SO/200_crit", "SO/BN98", "SOAP"]
COLUMNS = [["Hydrogen", "Helium", "Carbon"], ["Oxygen"], ["HII", "HeIII"], ["HI", "HII", "HeI", "HeII", "H2"],
           ["GraphiteLarge", "SilicatesMgLarge"], ["carbon", "IRON"], ["x", "y"], ["Type0", "Group1Small", "X"]]
WORDS = ["Internal", "Energies", "HII", "Density", "Max", "phi", "SFR", "AGN", "x", "B2", "FOFGroup", "ID", "Radius", "10",
         "Spin", "e", "_", "Z", "Of"]
FORBIDDEN = {"coordinates", "filename", "units", "metadata", "group", "handle", "group_name", "group_metadata", "name",
             "handle_manager", "open_file", "generate_empty_properties", "field_path", "named_columns"}


def snake(s):
    """Only to keep generated names distinct; the oracle is MetaOps!Snake."""
    import re

    return re.sub("([a-z0-9])([A-Z])", r"\1_\2", s).lower()


def units(rng):
    u = [rng.randint(-5, 16), rng.randint(-6, 16), rng.randint(-6, 12), rng.randint(-6, 16), rng.randint(-6, 16)]
    d = {"Unit length in cgs (U_L)": 100.0 * 2.0 ** u[0], "Unit mass in cgs (U_M)": 1000.0 * 2.0 ** u[1],
         "Unit time in cgs (U_t)": 2.0 ** u[2], "Unit temperature in cgs (U_T)": 2.0 ** u[3],
         "Unit current in cgs (U_I)": 2.0 ** u[4]}
    return u, d


def exponent(rng):
    return rng.choice([0, 0, 0, 4, -4, 8, -8, 12, -12, 6, -6, 2, -2, 1, 5, -20])


def field(rng, name, ident, columns=None):
    physical = rng.choice([None, False, True])
    conv = rng.choice([None, True, False]) if physical else rng.choice([None, True])
    f = dict(name=name, exps=[exponent(rng) for _ in range(5)], a=exponent(rng), physical=bool(physical),
             convertible=conv is not False, columns=columns or [], id=ident,
             desc=f"field number {ident}", comp=rng.choice(["None", "DScale6", "FMantissa9"]))
    e = [x / 4 for x in f["exps"]]
    at = snap.fattrs(L=e[0], M=e[1], t=e[2], T=e[3], I=e[4], a=f["a"] / 4, physical=physical, convertible=conv,
                     desc=f["desc"], comp=f["comp"])
    if rng.random() < 0.2:
        at["Is Compressed"] = rng.random() < 0.5
        if not at["Is Compressed"]:
            f["comp"] = "Not compressed."
    if rng.random() < 0.2:
        at["Masked"] = True
        at["Mask Datasets"] = ["A", "B"]
        at["Mask Threshold"] = 7
    return f, at


def dims_of(u):
    import unyt.dimensions as D

    p = u.dimensions.as_powers_dict()
    return [int(round(float(p.get(d, 0)) * 4)) for d in (D.length, D.mass, D.time, D.temperature, D.current_mks)]


def quarters(x):
    x = math.log2(float(x)) * 4
    return int(round(x)) if abs(x - round(x)) < 1e-6 else 99999


def look(x, f=None, text=True):
    """What is observed of one array."""
    v = obs.values(x).astype(float).ravel()
    rows = np.arange(len(v))
    ident = int(v[0]) // 8 if len(v) and (v == v[0] + rows).all() and v[0] % 8 == 0 else -1
    cf = x.cosmo_factor
    return dict(id=ident, dims=dims_of(x.units), log=quarters(x.units.base_value),
                a=-quarters(cf.a_factor) if cf is not None and cf.expr is not None else 88888,
                physical=not x.comoving, convertible=bool(x.valid_transform),
                text=f is None or (f["desc"] in (x.name or "") and x.compression == f["comp"]))


def value(ident, n):
    return 8.0 * ident + np.arange(n)


def make_file(path, rng, outtype, names=None):
    """A file with random groups and fields; returns the description of its content."""
    u, ud = units(rng)
    kind = {"SOAP": "soap", "SOAPSubset": "soap", "FOF": "fof", "FOFSubset": "fof",
            "LineOfSight": "los"}.get(outtype, "snap")
    n = rng.choice([1, 3, 6])
    ident = [1]

    def fresh(k=1):
        ident[0] += k
        return ident[0] - k

    if kind == "snap":
        types = sorted(rng.sample(range(7), 7 if names else rng.choice([1, 2, 3])))
        paths = [f"PartType{t}" for t in types]
    elif kind == "soap":
        paths = rng.sample(SOAP, rng.choice([1, 3, 6, 9]))
    elif kind == "fof":
        paths = ["Groups"]
    else:
        paths = [f"LOS_{i:04d}" for i in range(rng.choice([1, 2, 4]))]
    named = {}
    if kind == "snap":
        for nm in ("ElementMassFractions", "SpeciesFractions", "DustMassFractions"):
            if rng.random() < 0.6:
                named[nm] = rng.choice(COLUMNS)
    h = h5py.File(path, "w")
    extra = {}
    if kind == "soap":
        extra = {"NumSubhalos_ThisFile": np.array([n]), "SubhaloTypes": paths}
    if kind == "fof":
        extra = {"NumGroup_ThisFile": np.array([n])}
    counts = rng.random() < 0.5
    num = [n * (f"PartType{t}" in paths) for t in range(7)]
    raw = {None: None}.get(outtype, outtype)
    snap.header(h, a=0.5, num=num, output_type=raw, extra=extra, units=ud,
                has_type=[int(x > 0) for x in num] if counts else None)
    if raw is not None and rng.random() < 0.4:
        h["Header"].attrs["OutputType"] = raw  # variable length string rather than bytes
    for k, v in named.items():
        h.create_dataset(f"SubgridScheme/NamedColumns/{k}", data=np.array([x.encode() for x in v], dtype="S32"))
    groups = []
    for p in paths:
        seen, fields = set(FORBIDDEN), []
        sub = {q.split("/")[len(p.split("/"))] for q in SOAP if q.startswith(p + "/")}
        cand = list(named) + (names.pop() if names else
                              ["".join(rng.sample(WORDS, rng.choice([1, 2, 3]))) for _ in range(rng.choice([1, 4, 8]))])
        at_names = []
        if kind == "los":
            at_names = ["Xpos", "Ypos", "Zpos", "NumParts", "Xaxis", "ID"]
            seen |= {snake(a) for a in at_names}
        for nm in cand:
            if snake(nm) in seen or nm in sub or nm in ("/", "_") or not nm[0].isalpha():
                continue
            seen.add(snake(nm))
            cols = named.get(nm)
            f, at = field(rng, nm, fresh(len(cols) if cols else 1), cols)
            data = value(f["id"], n)
            if cols:
                data = np.stack([value(f["id"] + k, n) for k in range(len(cols))], axis=1)
            snap.put(h, f"{p}/{nm}", data, at, rng.choice([None, 2]))
            fields.append(f)
        attrs = []
        for a in at_names:
            i = fresh()
            h.require_group(p).attrs[a] = np.array([8.0 * i])
            attrs.append(dict(name=a, id=i))
        h.require_group(p)
        groups.append(dict(path=p, fields=fields, attrs=attrs))
    h.close()
    return dict(op="file", outtype=outtype or "", units=u, groups=groups, offered=[], exc="")


def observe(sw, path, ev, rng):
    known = [*snap.NAMES, "sidm", "fof_groups"]
    try:
        d = sw.load(path)
    except ValueError as e:
        ev["class"] = "refused"
        ev["why"] = repr(e)
        return ev
    except Exception as e:
        ev["exc"] = repr(e)
        ev["class"] = ""
        return ev
    ev["class"] = type(d.metadata).__name__
    try:
        offered = list(d.metadata.present_group_names)
        offered += [k for k in known if hasattr(d, k) and k not in offered]
        by_id = {}
        for g in ev["groups"]:
            for f in g["fields"]:
                for k in range(max(1, len(f["columns"]))):
                    by_id[f["id"] + k] = f
        for nm in offered:
            o = getattr(d, nm)
            md = o.group_metadata
            fields, attrs = [], []
            for f in md.field_names:
                x = getattr(o, f)
                if hasattr(x, "named_columns"):
                    cols, first = [], None
                    for cname in x.named_columns:
                        y = getattr(x, cname)
                        w = by_id.get(look(y)["id"])
                        z = look(y, w)
                        cols.append(dict(name=cname, id=z["id"]))
                        first = first or z
                        for q in ("dims", "log", "a", "physical", "convertible", "text"):
                            if z[q] != first[q]:
                                first["text"] = False
                    fields.append(dict(first, name=f, columns=cols))
                else:
                    z = look(x)
                    fields.append(dict(look(x, by_id.get(z["id"])), name=f, columns=[]))
            for f in md.group_attributes:
                attrs.append(dict(look(getattr(o, f)), name=f))
            ev["offered"].append(dict(name=nm, fields=fields, attrs=attrs))
    except Exception as e:
        import traceback

        ev["exc"] = repr(e) + traceback.format_exc()[-400:]
    return ev


# ---------------------------------------------------------------- header (D04)

def number(x):
    """Odd mantissa and power of two of a float rounded to 30 bits."""
    x = float(x)
    if x == 0 or not math.isfinite(x):
        return dict(m=0 if x == 0 else -1, e=0, s="")
    f, e = math.frexp(x)
    m = int(round(f * 2**30))
    e -= 30
    while m % 2 == 0:
        m //= 2
        e += 1
    return dict(m=m, e=e, s="")


def text(s):
    return dict(m=0, e=0, s=str(s) or "(empty)")


def numbers(v):
    return [number(x) for x in np.ravel(v)]


MAY_LACK = ("Code", "GravityScheme", "Policy", "RuntimePars", "StarsScheme", "UnusedParameters")


def header_file(path, rng):
    u, ud = units(rng)
    outtype = rng.choice(["FullVolume", "FullVolume", "SOAP"])
    val = lambda: rng.choice([1, 3, 5, 7, 21, 100]) * 2.0 ** rng.randint(-6, 6)
    nt = rng.choice([8, 7, 7, 6, 5]) if outtype != "SOAP" else 7
    num = [rng.choice([0, 1, 2, 3]) if t < nt else 0 for t in range(8)]
    if not any(num):
        num[0] = 1
    L = [val() for _ in range(3)]
    h = h5py.File(path, "w")
    extra = {"NumSubhalos_ThisFile": np.array([5]), "SubhaloTypes": ["SOAP"]} if outtype == "SOAP" else {}
    snap.header(h, a=0.5, L=L, num=num[:7], output_type=outtype, units=ud, extra=extra)
    H = h["Header"].attrs
    want = []
    add = lambda attr, vals, sub="", absent="": want.append(dict(attr=attr, sub=sub, vals=vals, absent=absent))
    add("BoxSize", numbers(L))
    a = 2.0 ** -rng.choice([0, 1, 1, 2])
    if rng.random() < 0.9:
        H["Scale-factor"] = np.array([a])
    else:
        del H["Scale-factor"]
        a = 1.0
    add("Scale-factor", numbers([a]))
    for k in ("Time", "Redshift", "Dimension"):
        if rng.random() < 0.1:
            H.pop(k) if hasattr(H, "pop") else H.__delitem__(k)
            continue
        v = val() if k != "Dimension" else rng.choice([1, 2, 3])
        H[k] = np.array([v])
        add(k, numbers([v]))
    H["NumPart_ThisFile"] = np.array(num[:nt], dtype="i8")
    for t in range(8):
        if t < nt:
            add("NumPart_ThisFile", numbers([num[t]]), f"PartType{t}")
        else:
            add("NumPart_ThisFile", [], f"PartType{t}", absent="entry")
    for k in ("MassTable", "InitialMassTable"):
        if rng.random() < 0.8:
            mt = [rng.choice([0, val()]) for _ in range(nt)]
            H[k] = np.array(mt)
            absent = ["" if t < nt else "entry" for t in range(8)]
        else:
            if k in H:
                del H[k]
            absent = ["item"] * 8
        for t in range(8):
            add(k, [] if absent[t] else numbers([mt[t]]), f"PartType{t}", absent=absent[t])
    files = rng.choice([1, 1, 4])
    H["NumFilesPerSnapshot"] = np.array([files], dtype="i4")
    if outtype != "SOAP":
        add("Partial", [text(files > 1)])
    for k in ("RunName", "System", "SelectOutput"):
        s = rng.choice(["a run", "L0100N1504", "x" * 40, "caf\u00e9"])
        if rng.random() < 0.15:
            del H[k]
            add(k, [], absent="item")
            continue
        s = s.encode() if rng.random() < 0.5 and s.isascii() else s
        H[k] = np.bytes_(s) if isinstance(s, bytes) else s
        add(k, [text(s.decode() if isinstance(s, bytes) else s)])
    add("OutputType", [text(outtype)])
    key = rng.choice(["SnapshotDate", "SnapshotDate", "Snapshot date"])
    if key != "SnapshotDate":
        del H["SnapshotDate"]
    w, g = rng.choice([("13:07:59 2031-12-05 UTC", "2031-12-05 13:07:59"),
                       ("03:11:00 2019-01-31 UTC", "2019-01-31 03:11:00"),
                       ("Thu Dec  5 13:07:59 2031\n", "2031-12-05 13:07:59"),
                       ("some time ago", "some time ago")])
    H[key] = np.bytes_(w) if rng.random() < 0.5 else w
    add("SnapshotDate", [text(g)])
    if outtype == "SOAP":
        add("NumSubhalos_ThisFile", numbers([5]))
        h.create_group("SOAP")
    gamma = rng.choice([1.375, 1.25, None])
    if gamma is None:
        del h["HydroScheme"].attrs["Adiabatic index"]
        add("Adiabatic index", [], absent="item")
    else:
        h["HydroScheme"].attrs["Adiabatic index"] = np.array([gamma])
        add("Adiabatic index", numbers([gamma]))
    if rng.random() < 0.6:
        e = [val() for _ in range(4)]
        h["SubgridScheme/PhotonGroupEdges"] = np.array(e)
        add("PhotonGroupEdges", numbers(e))
    else:
        add("PhotonGroupEdges", [], absent="item")
    if rng.random() < 0.6:
        v = val()
        h["SubgridScheme/ReducedLightspeed"] = np.array([v])
        add("ReducedLightspeed", numbers([v]))
    else:
        add("ReducedLightspeed", [], absent="item")
    for g in ("Code", "Cosmology", "GravityScheme", "HydroScheme", "InternalCodeUnits", "Parameters", "Policy",
              "RuntimePars", "StarsScheme", "UnusedParameters", "SubgridScheme", "Header"):
        if g in MAY_LACK and rng.random() < 0.15:
            if g in h:
                del h[g]
            continue
        v, s = val(), f"text of {g}"
        h.require_group(g).attrs["Some number"] = np.array([v])
        h[g].attrs["Some text"] = np.bytes_(s)
        add(g, numbers([v]), "Some number")
        add(g, [text(s)], "Some text")
    if outtype != "SOAP" and rng.random() < 0.7:
        x, y = ["Hydrogen", "Helium", "Carbon"], ["Graphite", "Silicates"]
        for k, v in (("ElementMassFractions", x), ("DustMassFractions", y)):
            h.create_dataset(f"SubgridScheme/NamedColumns/{k}", data=np.array([q.encode() for q in v], dtype="S32"))
        for key, p, q in (("ElementToDustMapping", x, y), ("DustToElementMapping", y, x)):
            t = np.array([[val() for _ in q] for _ in p])
            h[f"SubgridScheme/{key}"] = t
            for i, a_ in enumerate(p):
                for j, b_ in enumerate(q):
                    add("Mapping", numbers([t[i, j]]),
                        {"E": "element_to_dust_mapping", "D": "dust_to_element_mapping"}[key[0]]
                        + f".{a_.lower()}_to_{b_.lower()}")
    for t in range(8):
        if outtype != "SOAP" and num[t]:
            snap.put(h, f"PartType{t}/Masses", np.zeros(num[t]), snap.fattrs(M=1.0))
    h.close()
    return dict(op="head", units=u, want=want, got=[], exc="")


def observe_header(sw, path, ev):
    import unyt

    got = ev["got"]

    def put(name, x, a=0):
        if isinstance(x, bytes):
            x = x.decode()
        if x is None:
            got.append(dict(name=name, vals=[text("(none)")], a=a))
        elif isinstance(x, (str, bool, np.bool_)) or type(x).__name__ == "datetime":
            got.append(dict(name=name, vals=[text(x)], a=a))
        elif isinstance(x, unyt.unyt_array):
            cf = getattr(x, "cosmo_factor", None)
            if cf is not None:
                m = type(x)(x, cosmo_factor=cf) if False else x
                a = -quarters(cf.a_factor) if cf.scale_factor != 1 and x.comoving else (4 if x.comoving else -77)
                a = a // int(round(-math.log2(cf.scale_factor))) if cf.scale_factor != 1 else a
            got.append(dict(name=name, vals=numbers(np.asarray(x) * x.units.base_value), a=a))
        else:
            got.append(dict(name=name, vals=numbers(x), a=a))

    try:
        d = sw.load(path)
        m = d.metadata
        for n in ("boxsize", "time", "t", "redshift", "z", "scale_factor", "a", "dimension", "run_name", "system_name",
                  "select_output", "output_type", "snapshot_date", "gas_gamma", "photon_group_edges",
                  "reduced_lightspeed", "n_subhalos"):
            if hasattr(m, n):
                put(n, getattr(m, n))
        put("partial_snapshot", bool(np.all(m.partial_snapshot)))
        for t in snap.NAMES + ["sidm"]:
            put(f"n_{t}", getattr(m, f"n_{t}", None))
            for k in ("mass_table", "initial_mass_table"):
                put(f"{k}.{t}", getattr(getattr(m, k), t, None))
        for g in ("code", "cosmology_raw", "header", "gravity_scheme", "hydro_scheme", "internal_code_units", "parameters",
                  "policy", "runtime_pars", "subgrid_scheme", "stars_scheme", "unused_parameters"):
            for k in ("Some number", "Some text"):
                put(f"{g}.{k}", (getattr(m, g) or {}).get(k))
        for k in ("element_to_dust_mapping", "dust_to_element_mapping"):
            for n, v in vars(getattr(m, k, object)).items():
                if "_to_" in n:
                    put(f"{k}.{n}", v)
    except Exception as e:
        import traceback

        ev["exc"] = repr(e) + traceback.format_exc()[-400:]
    return ev


def neutrinos(c, n):
    """The astropy neutrino description of random species."""
    from swiftsimio.conversions import swift_neutrinos_to_astropy

    out = []
    for _ in range(n):
        k = c.rng.choice([1, 1, 2, 3])
        m = [c.rng.choice([0, 1, 2, 5]) for _ in range(k)]
        d = [c.rng.choice([0, 1, 2, 3]) for _ in range(k)]
        nur = c.rng.choice([0, 1, 2])
        neff = sum(d) + nur + (c.rng.choice([-1 if sum(d) + nur else 1, 1]) if c.rng.random() < 0.3 else 0)
        frac = c.rng.random() < 0.15
        ev = dict(op="nu", mnu=m, deg=d, nur=nur, neff=neff * 100 + c.rng.choice([0, 4]), whole=not frac, refused=False,
                  masses=[])
        deg = np.array(d, dtype=float) + (0.5 if frac else 0)
        try:
            r = swift_neutrinos_to_astropy(ev["neff"] / 100, np.array([float(nur)]) if c.rng.random() < 0.5 else float(nur),
                                           np.array(m, dtype=float), deg)
            ev["masses"] = [int(round(x)) for x in r.to_value("eV")]
        except AttributeError:
            ev["refused"] = True
        out.append(ev)
    return out


def cosmologies(c, sw, n):
    """Cosmological parameters of a file as given by `metadata.cosmology`."""
    out = []
    for i in range(n):
        p = c.path(f"cosmo{i}.hdf5")
        u, ud = units(c.rng)
        h = h5py.File(p, "w")
        snap.header(h, a=0.5, num=[1] + [0] * 6, units=ud)
        snap.put(h, "PartType0/Masses", np.zeros(1), snap.fattrs(M=1.0))
        k = h["Cosmology"].attrs
        k["Cosmological run"] = np.array([1])
        vals = {"H0": 70.0 / 3.0856775814913673e19 * 2.0 ** u[2], "Omega_b": 0.0625, "Omega_lambda": 0.6875,
                "Omega_m": 0.25, "w_0": -1.0 + c.rng.choice([0, 0.125]), "w_a": c.rng.choice([0.0, 0.25]),
                "Omega_r": 0.0}
        for q, v in vals.items():
            k["H0 [internal units]" if q == "H0" else q] = np.array([v])
        k["T_CMB_0 [K]"] = np.array([2.75])
        k["N_eff"], k["N_ur"] = np.array([3.0]), np.array([3.0])
        k["M_nu_eV"], k["deg_nu"] = np.array([0.0]), np.array([0.0])
        h.close()
        ev = dict(op="head", units=[0] * 5, want=[], got=[], exc="")
        m = sw.load(p).metadata.cosmology
        for q, v in (("H0", 70.0), ("Om0", 0.25), ("Ode0", 0.6875), ("Ob0", 0.0625), ("w0", vals["w_0"]),
                     ("wa", vals["w_a"]), ("Tcmb0", 2.75), ("Neff", 3.0)):
            x = getattr(m, q)
            x = float(getattr(x, "value", x))
            ev["want"].append(dict(attr="Mapping", sub=f"cosmology.{q}", absent="", vals=[number(round(v, 6))]))
            ev["got"].append(dict(name=f"cosmology.{q}", vals=[number(round(x, 6))], a=0))
        out.append(ev)
    return out
