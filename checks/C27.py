"""C27: calculations of the interface's Python back end."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor

import pipygen
import vf


def check(c):
    c.model("PipyMC", "PipyMC.cfg" if c.quick else "PipyMC_big.cfg", timeout=800)
    for s in ("shared", "key", "early"):
        c.model("PipyMC", "PipyMC_%s.cfg" % s, expect_ok=False, timeout=300)
    rng = random.Random(c.seed * 7919 + 27)
    n = int(os.environ.get("N27", 160 if c.quick else 800))
    hs = [pipygen.history(rng, rng.randint(2, 6)) for _ in range(n)]
    parts = 4 if c.quick else 8
    drv = os.path.join(vf.VERIF, "harness/py/pipy.py")
    traces = []
    for k in range(parts):
        t = os.path.join(c.scratch, "pipy%d.ndjson" % k)
        ev = c.record(["python3-vt", drv, vf.REPO, os.path.join(c.scratch, "w%d" % k), "8"], t,
                      stdin="".join(json.dumps(h) + "\n" for h in hs[k::parts]), env={"PYTHONDONTWRITEBYTECODE": "1"}, timeout=800)
        c.count_events(ev)
        traces.append(t)
        if k == 0:
            c.sample(ev[:12])
    with ThreadPoolExecutor(4) as pool:
        list(pool.map(lambda k: c.require("PipyTrace", traces[k], ntraces=len(hs[k::parts]), what="calculations of the Python back end",
                                          timeout=850), range(parts)))
    c.assumptions += ["the compiled library is replaced by a stand-in that records how systems are defined; what it computes from a "
                      "definition is the subject of the other checks",
                      "fields are integers and distances multiples of 2^-20 at every step; restrictions of pairs by quantum numbers are not used (the back "
                      "end refuses them); the thread is run by its run() method in the calling thread",
                      "a calculation is killed while it writes by SIGKILL in the middle of a write to its cache directory"]
