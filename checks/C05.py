"""C05: the configuration store is a typed map that survives JSON."""
import os


def check(c):
    drv, = c.make("conf")
    c.model("ConfMC")
    beh = c.generate("ConfMC", "ConfGen.cfg", mode="bfs", timeout=800)
    if c.quick:
        beh = c.rng.sample(beh, min(len(beh), 3000))
    c.sample({"generated_history": beh[0]})
    for i in range(0, len(beh), 4000):
        part = beh[i:i + 4000]
        t = os.path.join(c.scratch, "script.ndjson")
        ev = c.record([drv, "script", "1", c.scratch], t, stdin="".join(
            "new\n" + "\n".join(" ".join(o) for o in b) + "\nend\n" for b in part))
        c.count_events(ev)
        c.require("ConfTrace", t, ntraces=len(part), what="generated histories")
    for i in range(1 if c.quick else 12):
        t = os.path.join(c.scratch, "rand.ndjson")
        n = 30 if c.quick else 100
        ev = c.record([drv, "rand", str(c.seed * 17 + i), c.scratch, str(n), "120"], t)
        c.count_events(ev)
        c.sample(ev[-1])
        c.require("ConfTrace", t, ntraces=n, what="random histories")
    c.assumptions += ["keys and values are valid UTF-8 text",
                      "floating-point values are neither infinite, NaN nor subnormal"]
