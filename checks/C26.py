"""C26: the operators behind the matrices of the calculation engine."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor

import enginegen
import vf


def check(c):
    backend, = c.make("backend-fake")
    c.model("EngineOpMC", "EngineOpMC.cfg" if c.quick else "EngineOpMC_big.cfg", timeout=600)
    for s in ("turn", "four"):
        c.model("EngineOpMC", "EngineOpMC_%s.cfg" % s, expect_ok=False, timeout=300)
    eng = ["python3-vt", os.path.join(vf.VERIF, "harness/py/engine.py"), backend, "-", os.path.join(c.scratch, "e"), "op"]
    rng = random.Random(c.seed * 6151 + 26)
    n = int(os.environ.get("N26", 400 if c.quick else 2500))
    jobs = []
    for i in range(n):
        cfg, t, q = enginegen.simple(rng, 24, 144 if i % 8 == 0 else 64)
        jobs.append({"cfg": cfg, "t": t, "threads": rng.choice([1, 2]), "q": q})
    parts = 6 if c.quick else 12
    def run(k):
        t = os.path.join(c.scratch, "op%d.ndjson" % k)
        ev = c.record(eng, t, stdin="".join(json.dumps(j) + "\n" for j in jobs[k::parts]), env={"WORKERS": "8"}, timeout=800)
        return t, ev
    out = [run(k) for k in range(parts)]
    for k, (t, ev) in enumerate(out):
        c.count_events(ev)
    c.sample([dict(e, re=e["re"][:2]) if "re" in e else e for e in out[0][1][:4]])
    with ThreadPoolExecutor(6) as pool:
        list(pool.map(lambda k: c.require("EngineOpTrace", out[k][0], ntraces=len(jobs[k::parts]), what="operators", timeout=850), range(parts)))
    c.assumptions += ["reflection, inversion and conserved momenta are judged without fields (the engine takes these sectors from "
                      "one-atom eigenvectors that have a definite parity and momentum only then), restrictions of pairs as well",
                      "entries are compared up to 0.3, the elements are integers of the order one to one hundred"]
