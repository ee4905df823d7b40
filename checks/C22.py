"""C22: what the calculation engine announces, and what it does with bad command lines and configurations."""
import json, os, random

import enginegen
import vf


def files(rng):
    """configurations behind the tokens of the command lines"""
    def usable(t, two=None):
        while True:
            c, typ = enginegen.config(rng, True, two)
            if typ == t:
                c["refE"] = c["refO"] = False  # (this may be refused)
                return c
    good = usable("real")
    bad = {"good": json.dumps(good), "broken": json.dumps(good)[:rng.randrange(1, 200)], "text": "[1, 2" if rng.random() < 0.5 else ""}
    y = dict(good)
    y["minBy"], y["maxBy"] = 3., 3.
    bad["ymix"] = json.dumps(y)
    n = dict(good)
    del n[rng.choice(["deltaESingle", "minEx", "maxBz", "deltaNSingle"])]
    bad["nokey"] = json.dumps(n)
    t = dict(good, samebasis=True)
    for k in ("species", "n", "l", "j", "m"):
        t.setdefault(k + "1", {"species": "Rb", "n": 30, "l": 0, "j": .5, "m": .5}[k])
        t.setdefault(k + "2", {"species": "Rb", "n": 30, "l": 0, "j": .5, "m": .5}[k])
    t["species2"] = "Cs" if t["species1"] != "Cs" else "Rb"
    bad["twosp"] = json.dumps(t)
    z = dict(good, steps=0)
    z["maxBz"] = z["minBz"] + 20.
    bad["zero"] = json.dumps(z)
    bad["odd"] = json.dumps(dict(good, **{rng.choice(["minEz", "maxBx", "deltaESingle", "deltaNSingle"]): "much"}))
    return bad


def check(c):
    backend, cut = c.make("backend", "cut.so")
    eng = ["python3-vt", os.path.join(vf.VERIF, "harness/py/engine.py"), backend, cut, os.path.join(c.scratch, "e")]
    c.model("EngineCache", "EngineCache.cfg" if c.quick else "EngineCache_big.cfg", timeout=850)
    for s in ("early", "skip", "twice"):
        c.model("EngineCache", "EngineCache_%s.cfg" % s, expect_ok=False, timeout=300)
    # calculations
    rng = random.Random(c.seed * 7919 + 5)
    jobs = []
    for i in range(150 if c.quick else 900):
        cfg, t = enginegen.unusable(rng) if i % 9 == 8 else enginegen.symmetric(rng) if i % 4 == 3 else enginegen.config(rng, c.quick or i % 5 > 0)
        jobs.append({"cfg": cfg, "t": t, "threads": rng.choice([1, 2, 4]), "jitter": rng.choice([0, 0, 300]), "unit": enginegen.UNIT,
                     "q": enginegen.record(cfg, t), "runs": rng.choice([1, 2])})
    t = os.path.join(c.scratch, "lines.ndjson")
    ev = c.record(eng + ["lines"], t, stdin="".join(json.dumps(j) + "\n" for j in jobs))
    c.count_events(ev)
    c.sample([e for e in ev[:6]])
    c.require("ProtocolTrace", t, ntraces=len(jobs), what="calculations", timeout=850)
    # command lines
    lines = c.generate("CliGen", num=1 if c.quick else 6, depth=200)
    jobs = []
    for a in lines:
        f = files(rng)
        args = []
        opt = {"c": ["-c", "--config"], "o": ["-o", "--output"], "t": ["-t", "--type"], "help": ["-?", "--help"],
               "bogus": ["-x", "--configs", "conf"], "cc": ["-cc"], "empty": [""]}
        k = 0
        while k < len(a):
            x = a[k]
            args.append(rng.choice(opt.get(x, [x])))
            k += 1
            if x in ("c", "o", "t") and k < len(a):
                v = a[k]
                args.append("%s.json" % v if x == "c" and v in f or v == "absent" else {"nodir": "no/such/place"}.get(v, v))
                k += 1
        jobs.append({"a": a, "args": args, "files": {k + ".json": v for k, v in f.items()}})
    t = os.path.join(c.scratch, "cli.ndjson")
    ev = c.record(eng + ["cli"], t, stdin="".join(json.dumps(j) + "\n" for j in jobs))
    c.count_events(ev)
    c.count("command lines", len(ev))
    c.sample(ev[:2])
    c.require("ProtocolTrace", t, ntraces=len(ev), what="command lines", timeout=850)
    c.assumptions += ["configurations that name no atom, or lack a whole group of keys, are not judged",
                      "energies are not computed by the specification: with a window of energies the announced states are a subset "
                      "of those near the initial state"]
