"""C08: comparison, hashing and matching of states."""
import os


def check(c):
    drv, = c.make("state")
    c.model("StateMC")
    for i in range(1 if c.quick else 12):
        t = os.path.join(c.scratch, "state.ndjson")
        n = 40 if c.quick else 120
        ev = c.record([drv, str(c.seed * 19 + i), str(n)], t)
        c.count_events(ev)
        c.sample(ev[1])
        c.sample(ev[-2])
        c.require("StateTrace", t, ntraces=n, what="states made and compared", timeout=900)
    c.assumptions += ["species and labels are not empty",
                      "the engine's own (old) state types compare by quantum numbers only"]
