"""M05: index constraints."""
import sys

from vt import common
from vt.checks import protocol


def body(c):
    import swiftsimio as sw

    mine = lambda clause, op: op == "index"
    has = lambda rec: any(e["call"]["op"] == "index" for e in rec["hist"])
    protocol.replay_model(c, sw, mine, keep=has, n=(700, 6000))
    trace = []
    for it in range(c.n(180, 2500)):
        kind = "snap" if it % 5 == 0 else "soap"
        ops = c.rng.choice([["index", "load"], ["index", "bool", "load"], ["index", "bool", "ranges", "property", "load"],
                            ["index", "ranges", "spatial", "load"]])
        trace.append(protocol.random_trace(c, sw, it, kind, ops))
    trace = [t for t in trace if any(s["call"]["op"] == "index" for s in t["steps"])]
    protocol.judge(c, trace, mine)


if __name__ == "__main__":
    sys.exit(common.main("M05", body))
