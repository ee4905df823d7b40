"""C09: arithmetic of Hamiltonian matrices."""
import json
import os


def check(c):
    drv, = c.make("hmat")
    c.model("MatMC")
    for i in range(1 if c.quick else 8):
        beh = c.generate("MatMC", "MatGen.cfg", num=150 if c.quick else 400, depth=60, seed=c.seed * 7 + i)
        c.sample({"generated_history": [o["o"] for o in beh[0]["h"]]})
        for b in beh:
            for o in b["h"]:
                c.count("gen:" + o["o"])
        t = os.path.join(c.scratch, "script.ndjson")
        ev = c.record([drv, "script", str(c.seed + i)], t,
                      stdin="\n".join(json.dumps(b) for b in beh))
        c.count_events(ev)
        c.require("MatTrace", t, ntraces=len(beh), what="generated histories", timeout=900)
    t = os.path.join(c.scratch, "diag.ndjson")
    n = 300 if c.quick else 5000
    ev = c.record([drv, "diag", str(c.seed), str(n)], t)
    c.count_events(ev)
    c.sample(ev[3])
    c.require("MatTrace", t, ntraces=n, what="diagonalisations", timeout=900)
    c.assumptions += ["entries are integers small enough to be exact",
                      "operands have the shapes the operation needs"]
