"""R02: range readers (RangeReader.tla, RemoteReader.tla, RangeTrace.tla)."""

import json

import h5py
import numpy as np

from vt import common, tlc
from vt.ranges import RemoteStandIn, runs

K = 8  # column stride of the encoded values


def encode(n, ncol, dtype):
    a = np.arange(n)
    return (a if ncol == 0 else a[:, None] * K + np.arange(ncol)[None, :]).astype(dtype)


def read(acc, ds, rs, ncol, col, dtype):
    """One call of the public range reader; returns (rows, attrs_ok)."""
    size = sum(b - a for a, b in rs)
    multi = ncol > 0
    shape = (size, ncol) if multi and col is None else size
    columns = np.s_[:] if col is None else np.s_[col]
    out = acc.read_ranges_from_file(
        ds, np.array(rs), output_shape=shape, output_type=ds.dtype, columns=columns)
    ok = out.dtype == np.dtype(dtype).newbyteorder("=") and out.dtype.isnative
    if multi and col is None:
        ok = ok and out.shape == (size, ncol)
        if ok and size:
            ok = bool((out - out[:, :1] == np.arange(ncol)).all())
            ok = ok and bool((out[:, 0] % K == 0).all())
        rows = (out[:, 0] // K) if ok else []
    else:
        ok = ok and out.shape == (size,)
        if multi:
            ok = ok and bool((out % K == col).all())
            rows = out // K
        else:
            rows = out
    return [int(x) for x in np.asarray(rows).ravel()], bool(ok)


def body(c):
    import swiftsimio.accelerated as acc

    # ---- exhaustive models; their behaviours are replayed below -------------
    inv = ["Correct", "OnlyInside", "ReadOnce", "BlocksDisjoint", "Covered", "EmitCase"]
    m = tlc.run("RangeReader", tlc.cfg_text(
        dict(MaxN=c.n(5, 7), MaxC=c.n(6, 8), MaxLen=3, Emit=True), spec="Spec", invariants=inv),
        coverage=True, timeout=800)
    c.model(m, "RangeReader")
    r = tlc.run("RemoteReader", tlc.cfg_text(
        dict(MaxN=c.n(4, 5), MaxLen=3, Emit=True), spec="Spec",
        invariants=["Correct", "SlicesNormal", "RefusedIffOverlap", "EmitCase"]), coverage=True)
    c.model(r, "RemoteReader")
    l = tlc.run("RangeReader", tlc.cfg_text(
        dict(MaxN=3, MaxC=4, MaxLen=2, Emit=False), spec="Spec", properties=["Terminates"]))
    c.model(l, "RangeReader-liveness")

    f = h5py.File(c.path("r02.h5"), "w")
    dsets = {}

    def dataset(n, chunk, ncol, dtype, width=None, filters=0):
        """A dataset in chunks of so many rows, of all columns or only `width` of them."""
        key = (n, chunk, ncol, dtype, width, filters)
        if key not in dsets:
            data = encode(n, ncol, dtype)
            kw = {}
            if chunk:
                kw = dict(chunks=(chunk,) + ((min(width or ncol, ncol),) if ncol else ()),
                          maxshape=(None,) + ((ncol,) if ncol else ()))
                kw |= [{}, dict(compression="gzip", shuffle=True), dict(fletcher32=True)][filters]
            dsets[key] = f.create_dataset("_".join(map(str, key)), data=data, **kw)
        return dsets[key]

    kinds = [(0, None, "<i4"), (3, None, "<f8"), (3, 1, ">i8")]
    for i, rec in enumerate(m.records):
        for ncol, col, dtype in (kinds if c.thorough else [kinds[i % 3], kinds[0]]):
            ds = dataset(rec["n"], rec["c"], ncol, dtype)
            c.traces += 1
            try:
                rows, ok = read(acc, ds, rec["rs"], ncol, col, dtype)
            except Exception as e:
                c.violation("read", "read-succeeds", case=rec, exc=repr(e))
                continue
            if rows != rec["out"] or not ok:
                c.violation("read", "rows-are-the-requested-ones", case=rec, got=rows, dtype=dtype)
    c.sample(m.records[len(m.records) // 2])
    for rec in r.records:
        for ncol in (0, 2):
            ds = RemoteStandIn(encode(6, ncol, "<i4"))
            c.traces += 1
            try:
                rows, ok = read(acc, ds, rec["rs"] or np.empty((0, 2), int), ncol, None, "<i4")
                refused = False
            except RuntimeError:
                refused = True
            except Exception as e:
                c.violation("remote", "read-succeeds", case=rec, exc=repr(e))
                continue
            if refused != rec["refused"]:
                c.violation("remote", "overlap-refused", case=rec, got=refused)
            elif not refused and (rows != rec["out"] or not ok):
                c.violation("remote", "rows-in-the-requested-order", case=rec, got=rows)
            elif not refused and ds.requested != rec["slices"]:
                c.violation("remote", "slices-sorted-disjoint-nonempty", case=rec, got=ds.requested)
    c.sample(r.records[-1])

    # ---- recorded random calls, checked by RangeTrace.tla -------------------
    rng = c.rng
    trace = []
    for _ in range(c.n(600, 6000)):
        op = rng.choice(["read", "read", "read", "rows", "remote"])
        n = rng.choice([0, 1, 7, 40, 200, 700])
        cuts = sorted(rng.randint(0, n) for _ in range(2 * rng.randint(1, 9)))
        rs = [list(cuts[2 * i: 2 * i + 2]) for i in range(len(cuts) // 2)]
        if op == "read":
            chunk = rng.choice([0, 1, 3, 16, 64, 1000])
            ncol, col, dtype = rng.choice(
                kinds + [(0, None, ">f4"), (0, None, "<u8"), (5, 4, "<i8"), (1, 0, "<i4"), (1, None, ">f8")])
            ev = dict(op=op, rs=rs, exc="", runs=[], attrs=True, n=n, chunk=chunk, ncol=ncol)
            width, filters = rng.choice([None, None, 1, 2]), rng.choice([0, 0, 0, 1, 2])
            try:
                rows, ev["attrs"] = read(acc, dataset(n, chunk, ncol, dtype, width, filters), rs, ncol, col, dtype)
                ev["runs"] = runs(rows)
            except Exception as e:
                ev["exc"] = repr(e)
        elif op == "rows":
            rows = sorted(rng.sample(range(n), rng.randint(0, n))) if rng.random() < 0.5 else \
                [x for a, b in rs for x in range(a, b)]
            ev = dict(op=op, rows=rows, rs=[], exc="")
            try:
                ev["rs"] = [[int(a), int(b)] for a, b in acc.ranges_from_array(np.array(rows, dtype=int))]
            except Exception as e:
                ev["exc"] = repr(e)
        else:
            rng.shuffle(rs)
            if rng.random() < 0.2 and n:
                a = rng.randint(0, n - 1)
                rs.append([a, rng.randint(a, n)])
            ds = RemoteStandIn(encode(n, 0, "<i4"))
            ev = dict(op=op, rs=rs, exc="", runs=[], slices=[])
            try:
                rows, ok = read(acc, ds, rs, 0, None, "<i4")
                ev["runs"], ev["slices"] = runs(rows), ds.requested
            except Exception as e:
                ev["exc"] = repr(e)
        trace.append(ev)
    # index_dataset: row list straight to rows
    for _ in range(c.n(60, 400)):
        n = rng.choice([1, 5, 40, 200])
        rows = sorted(rng.sample(range(n), rng.randint(0, n)))
        chunk = rng.choice([0, 3, 16])
        ev = dict(op="read", rs=[[x, x + 1] for x in rows], exc="", runs=[], attrs=True)
        try:
            ds = dataset(n, chunk, 0, "<i4")
            got = acc.index_dataset(ds, np.array(rows, dtype=int))
            ev["attrs"] = bool(got.dtype == ds.dtype and got.shape == (len(rows),))
            ev["runs"] = runs(got)
        except Exception as e:
            ev["exc"] = repr(e)
        trace.append(ev)
    # long ranges: above the row count at which the implementation may switch method
    n = 1_300_000
    big = np.arange(n, dtype="<i4")
    for chunk in (0, 4096, 100_000):
        ds = f.create_dataset(f"big{chunk}", data=big, **(dict(chunks=(chunk,)) if chunk else {}))
        for rs in ([[5, 1_250_001]], [[0, 3], [3, 600_000], [650_001, 1_300_000]], [[499_999, 1_000_000]]):
            ev = dict(op="read", rs=rs, exc="", runs=[], attrs=True)
            try:
                size = sum(b - a for a, b in rs)
                got = acc.read_ranges_from_file(ds, np.array(rs), size, ds.dtype)
                brk = np.flatnonzero(np.diff(got) != 1)
                st = np.r_[0, brk + 1]
                en = np.r_[brk, len(got) - 1]
                ev["attrs"] = bool(got.dtype == ds.dtype and got.shape == (size,))
                ev["runs"] = [[int(got[a]), int(got[b]) + 1] for a, b in zip(st, en)][:50]
            except Exception as e:
                ev["exc"] = repr(e)
            trace.append(ev)
    f.close()
    validate(c, "RangeTrace", trace)
    c.assumptions += ["rows are identified by values written by the harness with h5py",
                      "the remote server is a stand-in implementing request_slices"]


def validate(c, module, trace, key="trace", keyf=None, clauses=None):
    """Have TLC judge every recorded event; report each failing clause."""
    p = c.path(f"{module}.ndjson")
    with open(p, "w") as out:
        for ev in trace:
            out.write(json.dumps(ev) + "\n")
    try:
        v = tlc.run(module, tlc.cfg_text(spec="Spec", postcondition="Consumed"), env=dict(TRACE=p), workers=1,
                    timeout=c.n(600, 3600))
    except tlc.TLCError as e:
        # what was recorded is not even of the form that the specification speaks of (on the unchanged tree it is)
        if "valuat" not in str(e) and "ttempted" not in str(e) and "CASE" not in str(e):
            raise
        c.violation("recorded-runs", "run-is-a-behaviour-of-the-specification", tlc=str(e)[-3000:])
        return
    c.model(v, module)
    c.traces += len(trace)
    if trace:
        c.sample(trace[0])
    for rec in v.records:
        ev = trace[rec["id"] - 1]
        if "at" in rec:  # position within the event
            ev = dict(ev, at=rec["at"])
        for clause in rec["fails"]:
            if clauses is not None and clause not in clauses:
                continue
            c.violation(keyf(ev, clause) if keyf else ev.get("op", key), clause, event=ev)


if __name__ == "__main__":
    import sys

    sys.exit(common.main("R02", body))
