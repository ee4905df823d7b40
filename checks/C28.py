"""C28: atom objects of the interface's Python back end."""
import json, os, random

import apigen
import vf


def check(c):
    c.model("ApiMC", "ApiMC.cfg" if c.quick else "ApiMC_big.cfg", timeout=600)
    for s in ("shared", "copy", "lazy"):
        c.model("ApiMC", "ApiMC_%s.cfg" % s, expect_ok=False, timeout=300)
    rng = random.Random(c.seed * 4421 + 28)
    n = int(os.environ.get("N28", 700 if c.quick else 8000))
    per = 700
    hs = [apigen.history(rng) for _ in range(n)]
    for k in range(0, n, per):
        t = os.path.join(c.scratch, "api%d.ndjson" % k)
        ev = c.record(["python3-vt", os.path.join(vf.VERIF, "harness/py/pipy.py"), vf.REPO, os.path.join(c.scratch, "w%d" % k), "8", "api"], t,
                      stdin="".join(json.dumps(h) + "\n" for h in hs[k:k + per]), env={"PYTHONDONTWRITEBYTECODE": "1"}, timeout=800)
        c.count_events(ev)
        c.sample(ev[:6])
        c.require("ApiTrace", t, ntraces=len(hs[k:k + per]), what="histories of atom objects", timeout=850)
    c.assumptions += ["the compiled library is replaced by a stand-in that records how systems are defined",
                      "a key without a prefix means the atoms and the pair; configurations use such keys only where both readings agree",
                      "fields along y are switched on later only where complex numbers are asked for",
                      "the window of pair energies stays that of the fields in which the pair was built first (documented: an update of "
                      "fields does not change the basis)"]
