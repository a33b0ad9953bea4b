"""M03: the protocol of mask constraints."""
import sys

from vt import common
from vt.checks import protocol


def body(c):
    import swiftsimio as sw

    every = lambda clause, op: True
    protocol.replay_model(c, sw, every)
    trace = []
    for it in range(c.n(160, 2500)):
        kind = "snap" if it % 2 else "soap"
        ops = c.rng.choice([["spatial", "spatial", "bool", "ranges", "load"],
                            ["spatial", "property", "property", "bool", "ranges", "load", "index"],
                            ["property", "bool", "ranges", "load"]])
        trace.append(protocol.random_trace(c, sw, it, kind, ops))
    trace += [protocol.opening(c, sw, it, protocol.TYPES[it % len(protocol.TYPES)]) for it in range(c.n(70, 700))]
    protocol.judge(c, trace, every)
    c.assumptions += ["the selection is decoded from the mask's public representation and from rows read"]


if __name__ == "__main__":
    sys.exit(common.main("M03", body))
