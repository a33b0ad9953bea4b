"""M01: spatial masks are complete."""

import sys

from vt import common
from vt.checks import spatial

CLAUSES = {"complete", "no-unexpected-error", "rows-once-in-file-order"}

if __name__ == "__main__":
    sys.exit(common.main("M01", lambda c: spatial.body(c, CLAUSES)))
