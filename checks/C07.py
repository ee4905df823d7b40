"""C07: pair bases of the calculation engine."""
import os


def check(c):
    drv, = c.make("basis")
    c.model("BasisMC")
    for i in range(1 if c.quick else 15):
        t = os.path.join(c.scratch, "two.ndjson")
        n = 60 if c.quick else 200
        ev = c.record([drv, "two", str(c.seed * 13 + i), c.scratch, str(n)], t)
        c.count_events(ev)
        c.sample({k: (v if k != "rows" else v[:5]) for k, v in ev[3].items()})
        c.require("BasisTrace", t, ntraces=n, what="pair bases and removals", timeout=900)
    c.assumptions += ["the atoms have spin 1/2 (the only case this part of the program supports)"]
