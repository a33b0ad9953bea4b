"""W01: the writer refuses inconsistent or incomplete data and keeps what was there."""
import sys

from vt import common
from vt.checks import writer

CLAUSES = {"inconsistent-assignment-refused", "consistent-assignment-accepted", "assigned-value-kept",
           "refused-keeps-previous", "deleted-is-gone", "inconsistent-write-refused", "consistent-write-accepted",
           "refused-write-leaves-no-file"}

if __name__ == "__main__":
    sys.exit(common.main("W01", lambda c: writer.body(c, CLAUSES)))
