"""S01: contents of subset files."""
import sys

from vt import common
from vt.common import fan
from vt.checks import subsets

CLAUSES = {"datasets-hold-the-masked-rows", "everything-else-kept", "nothing-added", "unconstrained-refused"}


def body(c):
    import swiftsimio as sw

    trace = subsets.replay_model(c, sw, c.n(60, 1500))
    trace += fan(c, lambda c, n: subsets.random_traces(c, sw, n, 0.8), c.n(110, 1500))
    subsets.judge(c, trace, CLAUSES)


if __name__ == "__main__":
    sys.exit(common.main("S01", body))
