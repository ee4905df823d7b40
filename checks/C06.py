"""C06: one-atom bases of the calculation engine."""
import os


def check(c):
    drv, = c.make("basis")
    c.model("BasisMC")
    beh = c.generate("BasisMC", "BasisGen.cfg", mode="bfs")
    if c.quick:
        beh = c.rng.sample(beh, 700)
    t = os.path.join(c.scratch, "all.ndjson")
    ev = c.record([drv, "script", str(c.seed), c.scratch, "0"], t,
                  stdin="\n".join(" ".join(map(str, b)) for b in beh))
    c.count_events(ev)
    c.sample(ev[len(ev) // 2])
    c.require("BasisTrace", t, ntraces=len(beh), what="generated settings", timeout=900)
    for i in range(1 if c.quick else 10):
        t = os.path.join(c.scratch, "one.ndjson")
        n = 40 if c.quick else 150
        ev = c.record([drv, "one", str(c.seed * 13 + i), c.scratch, str(n)], t)
        c.count_events(ev)
        c.require("BasisTrace", t, ntraces=n, what="random settings and removals", timeout=900)
    c.assumptions += ["the atoms have spin 1/2 (the only case this part of the program supports)"]
