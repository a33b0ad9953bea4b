"""C03: numpy functions do not depend on the frame of their operands."""
import sys
import warnings

from vt import common, tlc
from vt.checks import calc, calcops
from vt.checks.C02 import CL
from vt.checks.R02 import validate
from vt.common import fan


def calls(c, table, n):
    """Every call of the table equally often, on fresh operands."""
    import swiftsimio as sw

    return [calc.single(sw, c.rng, call) for call in table for _ in range(n)]


def body(c):
    warnings.simplefilter("ignore")
    K = dict(spec="Spec", invariants=["DenotesPhys", "NothingBad", "Consistent"], view="View")
    c.model(tlc.run("Calc", tlc.cfg_text(dict(N=2, Depth=2, Variant="code", Emit=False), **K), workers=8), "Calc")
    per = c.n(6, 90)
    trace = fan(c, lambda c, n: calls(c, calcops.FUNCS, per), 8)
    for t in trace:
        for o in t["ops"]:
            c.count("undefined" if o["orefused"] else "refused" if o["refused"] else "accepted")
            c.count("fn_" + o["label"])
    validate(c, "CalcTrace", trace, keyf=lambda ev, cl: ev["ops"][ev["at"] - 1]["label"] + ":" + cl, clauses=CL)


if __name__ == "__main__":
    sys.exit(common.main("C03", body))
