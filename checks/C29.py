"""C29: helpers of the interface's plots."""
import json, os, random

import plotgen
import vf


def check(c):
    c.model("PlotMC", "PlotMC.cfg" if c.quick else "PlotMC_big.cfg", timeout=600)
    for s in ("flip", "swap", "angle", "torn"):
        c.model("PlotMC", "PlotMC_%s.cfg" % s, expect_ok=False, timeout=300)
    rng = random.Random(c.seed * 7349 + 29)
    parts = 1 if c.quick else 8
    for k in range(parts):
        ops, n = [], 250
        for h in range(n):
            ops += plotgen.history(rng, h)
            ops += plotgen.matrices(rng, 4)
        t = os.path.join(c.scratch, "plot%d.ndjson" % k)
        d = os.path.join(c.scratch, "w%d" % k)
        os.makedirs(d)
        ev = c.record(["python3-vt", os.path.join(vf.VERIF, "harness/py/plot.py"), vf.REPO, d], t,
                      stdin="".join(json.dumps(o) + "\n" for o in ops), env={"PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}, timeout=600)
        c.count_events(ev)
        c.sample(ev[:6])
        c.require("PlotTrace", t, ntraces=n, what="helpers of the plots", timeout=850)
    c.assumptions += ["angles differ by more than 5e-9; elements are compared to a thousandth of the unit that makes them whole numbers",
                      "image values lie within the limits that are given"]
