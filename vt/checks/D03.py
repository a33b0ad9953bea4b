"""D03: groups, fields, columns and their attributes are exposed under their own names."""
import sys

from vt import common, tlc
from vt.checks import meta
from vt.checks.R02 import validate
from vt.common import fan

KINDS = ["FullVolume", "FullVolume", "VolumeSubset", None, "SOAP", "SOAPSubset", "FOF", "FOFSubset", "LineOfSight",
         "Mystery", "fullvolume", ""]


def files(c, sw, n, names, lots=None):
    out = []
    for i in range(n):
        kind = c.rng.choice(KINDS[:9] if c.rng.random() < 0.9 else KINDS[9:])
        if kind == "":
            kind = "Unknown"
        mine = [c.rng.sample(names, 6) for _ in range(9)] if c.rng.random() < 0.4 else None
        if lots:
            kind = "VolumeSubset"
            mine = [lots[i][k::7] for k in range(7)]
        p = c.path(f"f{i}.hdf5")
        ev = meta.make_file(p, c.rng, kind, mine)
        out.append(meta.observe(sw, p, ev, c.rng))
    return out


def body(c):
    import swiftsimio as sw

    m = tlc.run("Names", tlc.cfg_text(dict(MaxLen=c.n(5, 7), Emit=True), spec="Spec",
                                      invariants=["Idempotent", "OnlyCaseAndUnderscores", "NoCapitals", "EmitCase"]),
                workers=8, timeout=1500)
    c.model(m, "Names")
    names = [r["name"] for r in m.records]
    c.rng.shuffle(names)
    lots = [names[i:i + 40] for i in range(0, len(names), 40)]

    # every name of the model once (chunk i of the processes takes every 8th lot)
    def lot(c, n):
        i = int(c.tmp.rsplit("/", 1)[1].split("_")[0])
        return files(c, sw, len(lots[i::8]), names, lots[i::8])

    trace = fan(c, lot, 8)
    trace += fan(c, lambda c, n: files(c, sw, n, names), c.n(160, 6000))
    validate(c, "MetaTrace", trace, keyf=lambda ev, cl: ev["outtype"] or "default")


if __name__ == "__main__":
    sys.exit(common.main("D03", body))
