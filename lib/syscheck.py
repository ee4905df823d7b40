"""Histories of the lazily built system, shared by C12 and C13."""
import json, os
import sysgen
from vf import known_findings


def histories(c, mode, num, seed):
    drv, = c.make("sys")
    cfgs = [sysgen.configuration(c.rng) for _ in range(max(200, num))]
    cf = os.path.join(c.scratch, "configs.ndjson")
    c.write_trace(cf, cfgs)
    beh = c.generate("SysGen", "SysGen_%s.cfg" % mode, num=num, depth=40, env={"CONFIGS": cf}, seed=seed)
    c.sample({"generated_history": ["%s@%d %s" % (o["o"], o["s"], json.dumps(o["a"])) for o in beh[0]["h"]]})
    t = os.path.join(c.scratch, "sys.ndjson")
    ev = c.record([drv], t, stdin="".join(json.dumps({"cfg": cfgs[b["n"] - 1], "ops": b["h"]}) + "\n" for b in beh))
    c.count_events(ev)
    for e in ev:
        if e.get("res_err"):
            c.count("refused:" + e["event"])
    c.require("SysTrace", t, ntraces=len(beh), what="generated histories (%s)" % mode, timeout=900)


CFG = {"pool": [[60, 0, 1, 1], [60, 0, 1, -1], [61, 0, 1, 1], [61, 0, 1, -1]],
       "sys": [{"vecs": [[[1, 1, 0], [3, 1, 0]], [[1, 1, 0], [3, -1, 0]], [[2, 1, 0]]], "en": [1, 2, 4], "off": [], "ms": False},
               {"vecs": [[[4, 1, 0]]], "en": [3], "off": [], "ms": False}],
       "V": [[1, 3, 1, 0], [3, 1, 1, 0], [3, 3, 3, 0], [2, 3, 2, 0], [3, 2, 2, 0]], "W": [], "cplx": False}
DEMOS = {"partial-vectors": [("BuildB", 0), ("P", 1), ("?", 0), ("N", [60])],
         "restrict-energy-lazy": [("BuildB", 0), ("P", 1), ("?", 0), ("Energy", [3, 99])]}


def findings(c):
    """Histories with and without a question in between that are known to differ."""
    drv, = c.make("sys")
    known = known_findings(c.pid)
    for key, ops in DEMOS.items():
        last = []
        for ask in (False, True):
            h = [{"o": "Ham" if o == "?" else o, "s": 1, "a": a} for o, a in ops if ask or o != "?"]
            rc, out, err = c.run([drv], stdin=json.dumps({"cfg": CFG, "ops": h}) + "\n")
            ev = [json.loads(x) for x in out.splitlines() if x.startswith("{")]
            last.append(ev[-1]["pk"][0] if rc == 0 and len(ev) == len(h) + 1 else {"crash": rc})
            c.count("demonstrations")
        if last[0] != last[1]:
            if key in known:
                c.finding(key, known[key])
            else:
                c.fail("asking in between changes the answer: " + key, {"not asked": last[0], "asked": last[1], "operations": ops})
