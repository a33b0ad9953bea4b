"""M02: spatial masks select whole cells that touch the region."""

import sys

from vt import common
from vt.checks import spatial

CLAUSES = {"whole-cells", "only-touching-cells", "far-regions-refused", "refused-region-leaves-mask",
           "no-unexpected-error"}

if __name__ == "__main__":
    sys.exit(common.main("M02", lambda c: spatial.body(c, CLAUSES)))
