"""C21: the engine's directory of results, through kills, damage and company."""
import json, os, random

import enginegen
import vf


def check(c):
    backend, cut = c.make("backend", "cut.so")
    c.model("EngineCache", "EngineCache.cfg" if c.quick else "EngineCache_big.cfg", timeout=850)
    for s in ("flag", "insert", "json", "unread", "plain", "key"):
        c.model("EngineCache", "EngineCache_%s.cfg" % s, expect_ok=False, timeout=300)
    rng = random.Random(c.seed * 104729 + 11)
    hs = c.generate("EngineGen", num=45 if c.quick else 600, depth=12)
    jobs = []
    for h in hs:
        while True:
            cfg, t = enginegen.config(rng, True)
            if enginegen.sensible(cfg, t):
                break
        cfgs = [[cfg, t]]
        while len(cfgs) < 3:
            cfgs.append(list(enginegen.variant(rng, *rng.choice(cfgs))))
        jobs.append({"cfgs": cfgs, "ops": h, "seed": rng.randrange(1 << 30)})
    # circumstances that differ in one thing that matters, one after the other in one directory
    kinds = sorted(set(enginegen.KINDS))
    for k in (kinds + ["R", "field"]) * (2 if c.quick else 20):
        a = enginegen.telling(rng, k)
        b = enginegen.variant(rng, *a, kinds=[k])
        run = {"c": 1, "threads": 2, "cut": 0, "jitter": 0}
        jobs.append({"cfgs": [a, b], "ops": [{"o": "Run", "a": dict(run, c=x)} for x in (1, 2, 1)], "seed": 1})
    for k in range(0, len(jobs), 150):
        part = jobs[k:k + 150]
        t = os.path.join(c.scratch, "cache%d.ndjson" % k)
        ev = c.record(["python3-vt", os.path.join(vf.VERIF, "harness/py/engine.py"), backend, cut, os.path.join(c.scratch, "e"), "cache"], t,
                      stdin="".join(json.dumps(j) + "\n" for j in part), timeout=850)
        c.count_events(ev)
        runs = [r for e in ev for r in (e["r"] if e["event"] == "Par" else [e["r"]] if e["event"] == "Run" else [])]
        c.count("calculations", len(runs))
        c.count("circumstances that differ in one thing and in the matrices", sum(e.get("differ", False) for e in ev))
        c.count("killed", sum(r["end"] == "killed" for r in runs))
        c.count("matrices", sum(len(r["got"]) for r in runs))
        if k == 0:
            c.sample(ev[:8])
        c.require("EngineTrace", t, ntraces=len(part), what="histories of a directory of results", timeout=850)
    c.assumptions += ["kills strike at changes of files (between them nothing of the directory changes)",
                      "a file whose bytes were altered so that it still reads as a matrix of the same circumstances cannot be told "
                      "from a good one and is not produced"]
