"""D04: header and other metadata are exposed with their values and units."""
import sys

from vt import common
from vt.checks import meta
from vt.checks.R02 import validate
from vt.common import fan


def headers(c, sw, n):
    out = []
    for i in range(n):
        p = c.path(f"h{i}.hdf5")
        out.append(meta.observe_header(sw, p, meta.header_file(p, c.rng)))
    return out


def body(c):
    import swiftsimio as sw

    trace = fan(c, lambda c, n: headers(c, sw, n), c.n(600, 8000))
    trace += meta.neutrinos(c, c.n(2000, 40000))
    trace += meta.cosmologies(c, sw, c.n(10, 60))
    validate(c, "MetaTrace", trace, keyf=lambda ev, cl: ev["op"])


if __name__ == "__main__":
    sys.exit(common.main("D04", body))
