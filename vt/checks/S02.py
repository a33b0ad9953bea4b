"""S02: cell and count metadata of subset files."""
import sys

from vt import common
from vt.common import fan
from vt.checks import subsets

CLAUSES = {"counts-and-offsets-describe-the-rows", "counts-sum-to-rows", "header-count-is-rows-stored",
           "extents-stay-with-their-cell", "mask-on-subset-selects-retained-rows", "cells-kept",
           "subset-of-subset-composes"}


def body(c):
    import swiftsimio as sw

    trace = subsets.replay_model(c, sw, c.n(150, 2500))
    trace += fan(c, lambda c, n: subsets.random_traces(c, sw, n, 0.1), c.n(90, 1500))
    subsets.judge(c, trace, CLAUSES)


if __name__ == "__main__":
    sys.exit(common.main("S02", body))
