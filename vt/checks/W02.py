"""W02: a written snapshot holds exactly what was assigned."""
import sys

from vt import common
from vt.checks import writer

CLAUSES = {"types-present", "fields-read-back", "header-counts", "header-masses", "header-box",
           "smoothing-lengths-generated", "assigned-value-kept"}

if __name__ == "__main__":
    sys.exit(common.main("W02", lambda c: writer.body(c, CLAUSES)))
