"""D05: the command-line tool and validate_file (Tool.tla, ToolTrace.tla)."""
import contextlib
import io
import os
import pathlib
import re
import sys

import h5py
import numpy as np

from vt import common, snap as sf, tlc
from vt.checks.R02 import validate
from vt.common import fan

# values and how they are written to four digits
DIGITS = [(0.0, "0"), (0.5, "0.5"), (1.0, "1"), (2.0 / 3, "0.6667"), (127.0, "127"), (1234567.0, "1.235e+06"), (1e-7, "1e-07"),
          (0.98765432, "0.9877"), (99.999, "100"), (12.3456, "12.35"), (0.00012344, "0.0001234"), (7e-5, "7e-05")]
COUNTS = [(0, "0"), (1, "1"), (17, "17"), (999, "999"), (9999, "9999"), (12345, "1.234e+04"), (99999, "1e+05"), (2000001, "2e+06"), (5 * 10**9, "5e+09")]
POLICIES = ["cosmological integration", "cooling", "drift everything", "engine_policy", "external gravity", "fof", "hydro", "keep", "rand", "self gravity",
            "star formation", "stars", "steal", "structure finding", "black holes", "sinks", "feedback", "temperature", "neutrinos", "csds", "line of sight"]
SUBGRID = ["Chemistry Model", "Cooling Model", "Entropy floor", "Extra-heating Model", "Feedback Model", "Tracers", "Black hole Model", "Star formation Model",
           "NamedColumns", "Models of Model"]
TEXTS = ["None", "EAGLE", "Gadget-2 version of SPH (Springel 2005)", "With per-particle softening", "SPHENIX (Borrow+ 2022)", "a, b", "Model"]
MONTHS = [("10:11:12 2026-01-02 UTC", "2026-01-02 10:11:12"), ("00:00:00 2020-02-29 UTC", "2020-02-29 00:00:00"), ("23:59:59 1999-12-31 UTC", "1999-12-31 23:59:59"),
          ("sometime", "sometime")]
BAD = ["absent", "unmarked", "foreign", "text"]


def bare(x):
    return re.sub(r"\s+", "", x)


def write(rng, path, kind, i, any_type):
    """A file of the given kind (a catalogue, too, if any_type); returns the facts it states."""
    blank = dict(kind=kind, name=bare(str(path)), run="", date="", policies=[], type="", sel="", nums=["0"] * 8, comp="", compv="", mpi="", branch="", rev="",
                 gdate="", z="", a="", t="", cosmo=False, grav="", hydro="", sub=[])
    if kind == "absent":
        return blank
    if kind == "text":
        if rng.random() < 0.15:
            os.mkdir(path)
        else:
            with open(path, "wb") as f:
                f.write(rng.choice([b"", b"SWIFT\n", b"\x89HDF\r\n\x1a\n", os.urandom(300)]))
        return blank
    soap = any_type and rng.random() < 0.2 and kind == "swift"
    w = sf.World((1, 1, 1), (8.0, 8.0, 8.0), [0], {0: [(0, (1.0, 1.0, 1.0))] * rng.choice([0, 2])})
    otype = rng.choice(["SOAP", "SOAPSubset"]) if soap else rng.choice(["FullVolume", "VolumeSubset"])
    (sf.soap if soap else sf.snapshot)(path, w, output_type=otype, units={**sf.UNITS, "Unit time in cgs (U_t)": 3.15576e16})  # Gyr
    with h5py.File(path, "r+") as h:
        if kind == "unmarked":
            r = rng.random()
            if r < 0.5:
                del h["Code"]
            elif r < 0.8:
                del h["Code"].attrs["Code"]
            else:
                for k in list(h):
                    del h[k]
            return blank
        if kind == "foreign":
            h["Code"].attrs["Code"] = np.bytes_(rng.choice(["GADGET", "swift", "SWIFTER", "SWIF", "", "AREPO"]))
            return blank
        H = h["Header"].attrs
        f = dict(blank, run="run%d%s" % (i, bare(rng.choice(["", " of mine", "-µ"]))), type=otype)
        H["RunName"] = np.bytes_(f["run"].encode())
        date, f["date"] = rng.choice(MONTHS)
        f["date"] = bare(f["date"])
        H["SnapshotDate"] = np.bytes_(date)
        f["sel"] = rng.choice(["Default", "Snipshot"])
        H["SelectOutput"] = np.bytes_(f["sel"])
        for key, name in (("Redshift", "z"), ("Scale-factor", "a"), ("Time", "t")):
            v, f[name] = rng.choice(DIGITS if name != "a" else DIGITS[1:])
            H[key] = np.array([v])
        size = rng.choice([6, 7, 8]) if not soap else 7
        got = [rng.choice(COUNTS) for _ in range(size)]
        H["NumPart_ThisFile"] = np.array([n for n, _ in got], dtype="i8")
        H["NumPart_Total"] = np.array([n % 2**32 for n, _ in got], dtype="u4")
        H["NumPart_Total_HighWord"] = np.array([n >> 32 for n, _ in got], dtype="u4")
        f["nums"] = [t for _, t in got] + ["0"] * (8 - size)
        for t, (n, _) in enumerate(got):
            if n and not soap:
                h.require_group(f"PartType{t}")
        C = h["Code"].attrs
        for key, name, opts in (("Compiler Name", "comp", ["GCC", "ICX"]), ("Compiler Version", "compv", ["13.3.0", "9"]), ("Git Branch", "branch", ["main", "x/y"]),
                                ("MPI library", "mpi", ["Non-MPI version of SWIFT", "Open MPI"]), ("Git Revision", "rev", ["v1.0.0-725-g10d7d5b3", "v0"]),
                                ("Git Date", "gdate", ["2020-05-29 18:00:58 +0100"])):
            s = rng.choice(opts)
            C[key] = np.bytes_(s)
            f[name] = bare(s)
        g = h.require_group("Policy")
        for n in sorted(rng.sample(POLICIES, rng.choice([0, 1, 3, 9, 17]))):
            on = rng.random() < 0.6
            g.attrs[n] = np.array([int(on)], dtype="i4") if rng.random() < 0.8 else np.int32(on)
            f["policies"].append(dict(n=bare(n), on=on))
        for grp, name in (("GravityScheme", "grav"), ("HydroScheme", "hydro")):
            s = rng.choice(TEXTS)
            gg = h.require_group(grp)
            if rng.random() < 0.8:
                gg.attrs["Scheme"] = np.bytes_(s)
                f[name] = bare(s)
            else:
                f[name] = "None"
        g = h.require_group("SubgridScheme")
        for n in sorted(rng.sample(SUBGRID, rng.choice([0, 2, 5]))):
            s = rng.choice(TEXTS)
            g.attrs[n] = np.bytes_(s) if rng.random() < 0.8 else s
            if n != "NamedColumns":
                f["sub"].append(dict(n=bare(n.replace("Model", "model")), v=bare(s)))
        if rng.random() < 0.15:
            f["cosmo"] = True
            cc = h["Cosmology"].attrs
            cc["Cosmological run"] = np.array([1], dtype="i4")
            for k, v in (("H0 [internal units]", 70.0), ("Omega_b", 0.05), ("Omega_lambda", 0.7), ("Omega_r", 1e-4), ("Omega_m", 0.3), ("w_0", -1.0), ("w_a", 0.0),
                         ("T_CMB_0 [K]", 2.7255), ("N_eff", 3.046), ("N_ur", 3.046), ("M_nu_eV", 0.0), ("deg_nu", 0.0)):
                cc[k] = np.array([v])
    return f


def tool(rng, argv):
    import swiftsimio.swiftsnap as ss
    out, old, code, exc = io.StringIO(), sys.argv, 0, ""
    sys.argv = ["swiftsnap", *argv]
    try:
        with contextlib.redirect_stdout(out):
            ss.swiftsnap()
    except SystemExit as e:
        code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except Exception as e:
        exc = repr(e)
    finally:
        sys.argv = old
    return out.getvalue(), code, exc


def free(path, kind):
    """Can the file be opened for writing, so that nobody holds it?"""
    if kind in ("absent", "text"):
        return True
    try:
        with h5py.File(path, "r+"):
            return True
    except OSError:
        return False


def files(c, kinds, tag, any_type):
    """Files of the given (kind, content) pairs; equal pairs are the same file."""
    made = {}
    out = []
    for k in kinds:
        if k not in made:
            p = c.path(f"{tag}_{len(made)}.hdf5")
            made[k] = (p, write(c.rng, p, k[0], len(made), any_type))
        out.append(made[k])
    return out


def observe(c, kinds, mode):
    rng = c.rng
    fs = files(c, kinds, "t", mode != "full")
    flags = dict(full=[], z=[rng.choice(["-r", "--redshift"])], a=[rng.choice(["-a", "--scale-factor"])], both=["-r", "-a"])[mode]
    argv = [p for p, _ in fs]
    argv = flags + argv if rng.random() < 0.7 else argv + flags
    text, code, exc = tool(rng, argv)
    wide = 0
    if mode == "full" and code == 0:
        for para in text.split("\n\n"):
            ls = para.split("\n")
            for j, line in enumerate(ls):
                if line.startswith(("Active policies:", "Number of particles:")):
                    wide = max([wide] + [len(x) for x in ls[j:]])
        text = re.sub(r"(?m)^(Simulation state: .*t=\S+) .*$", r"\1", text)
        text = re.sub(r"(?ms)^Cosmology: (.*?)\n\n", lambda m: "Cosmology: %s\n\n" % ("None" if m[1] == "None" else "some"), text)
    said = bare(text) if mode == "full" or code else text.rstrip("\n")
    usable = all(free(p, f["kind"]) for p, f in fs)
    clear(fs)
    return dict(op="run", mode=mode, files=[f for _, f in fs], said=said, code=code, exc=exc, wide=wide, usable=usable or exc != "")


def clear(fs):
    for p in {p for p, _ in fs}:
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.remove(p)


def checked(c, kind):
    import swiftsimio as sw
    rng = c.rng
    fs = files(c, [(kind, 0)], "v", True)
    p, f = fs[0]
    how = rng.choice(["text", "path"] + (["handle"] * 2 if kind not in ("absent", "text") else []))
    ev = dict(op="valid", mode="", files=[f], how=how, yes=False, refused=False, usable=True, exc="")
    h = h5py.File(p, "r") if how == "handle" else None
    try:
        ev["yes"] = sw.validate_file(h if h is not None else pathlib.Path(p) if how == "path" else p) is True
    except OSError as e:
        ev["refused"], ev["exc"] = True, repr(e)[:200]
    except Exception as e:
        ev["exc"] = repr(e)[:200]
    if h is not None:
        ev["usable"] = bool(h)
        if h:
            h.close()
    ev["usable"] = ev["usable"] and free(p, kind)
    clear(fs)
    return ev


def body(c):
    K = dict(spec="Spec", invariants=["Correct", "NothingEarly"], properties=["Ends"])
    base = dict(MaxFiles=3, Contents="{1, 2}", Variant="code", Emit=False)
    c.model(tlc.run("Tool", tlc.cfg_text(base, **K), workers=8, timeout=800), "Tool")
    for v in ("eager", "last", "lax", "once", "backwards", "well"):
        r = tlc.run("Tool", tlc.cfg_text(dict(base, MaxFiles=2, Variant=v), spec="Spec", invariants=["Correct", "NothingEarly"]), workers=8, allow_violation=True)
        if not r.violated:
            raise tlc.ModelError(f"variant {v} not refuted")
    m = tlc.run("Tool", tlc.cfg_text(dict(base, Emit=True), spec="Spec", invariants=["EmitCase"]), workers=8, timeout=800)
    recs = sorted(m.records, key=lambda r: repr(r))
    c.rng.shuffle(recs)
    small = [r for r in recs if len(r["files"]) <= 2]
    # half of the longer ones without a bad file: they are few among all
    good = [r for r in recs if len(r["files"]) == 3 and all(f["kind"] == "swift" for f in r["files"])]
    take = small + good + recs[:c.n(400, 4000)]

    def replay(c, n):
        i = int(c.tmp.rsplit("/", 1)[1].split("_")[0])
        return [observe(c, [(f["kind"], f["id"]) for f in r["files"]], r["mode"]) for r in take[i::8]]

    def random(c, n):
        out = []
        for _ in range(n):
            rng = c.rng
            k = rng.choice([1, 1, 2, 5, 9])
            bad = rng.random() < 0.3
            out.append(observe(c, [(rng.choice(BAD) if bad and rng.random() < 0.3 else "swift", rng.randrange(k)) for _ in range(k)],
                               rng.choice(["full", "full", "z", "a", "both"])))
            out.append(checked(c, rng.choice(["swift", "swift"] + BAD)))
        return out

    trace = fan(c, replay, 8)
    c.info["replayed"] = len(take)
    trace += fan(c, random, c.n(400, 4000))
    validate(c, "ToolTrace", trace, keyf=lambda ev, cl: "tool" if ev["op"] == "run" else "validate")
    c.assumptions += ["snapshots summarised in full have the groups and attributes SWIFT always writes (Policy, GravityScheme, HydroScheme, SubgridScheme, Code)",
                      "the text of the cosmology is not judged, only whether there is one"]


if __name__ == "__main__":
    sys.exit(common.main("D05", body))
