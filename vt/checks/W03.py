"""W03: identifiers are unique, positive and kept when given."""
import sys

from vt import common
from vt.checks import writer

CLAUSES = {"user-ids-unchanged", "generated-ids-valid", "inconsistent-write-refused", "consistent-write-accepted"}

if __name__ == "__main__":
    sys.exit(common.main("W03", lambda c: writer.body(c, CLAUSES)))
