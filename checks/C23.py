"""C23: the graphical interface's reader of the engine's output."""
import json, os, random

import enginegen
import vf


def check(c):
    c.model("ReaderMC", "ReaderMC.cfg" if c.quick else "ReaderMC_big.cfg", timeout=600)
    for s in ("mod", "reset", "abort"):
        c.model("ReaderMC", "ReaderMC_%s.cfg" % s, expect_ok=False, timeout=300)
    backend, = c.make("backend")
    hs = c.generate("ReaderGen", num=150 if c.quick else 1400, depth=60)
    # what the real engine says
    rng = random.Random(c.seed * 31 + 7)
    for i in range(24 if c.quick else 200):
        cfg, typ = enginegen.unusable(rng) if i % 6 == 5 else enginegen.config(rng, True)
        hs.append([{"o": "Engine", "cfg": cfg, "t": typ, "backend": backend, "dir": os.path.join(c.scratch, "e%d" % i)}]
                  + [{"o": rng.choice(["Take", "TakeFile"]), "a": rng.randint(1, 3)} for _ in range(6)])
    t = os.path.join(c.scratch, "reader.ndjson")
    ev = c.record(["/usr/bin/python3", os.path.join(vf.VERIF, "harness/py/reader.py"), os.path.join(vf.REPO, "pairinteraction_gui/worker.py")], t,
                  stdin="".join(json.dumps(h) + "\n" for h in hs), env={"QT_QPA_PLATFORM": "offscreen", "PYTHONDONTWRITEBYTECODE": "1"})
    c.count_events(ev)
    c.sample(ev[:8])
    c.require("ReaderTrace", t, ntraces=len(hs), what="sessions of the reader", timeout=850)
    c.assumptions += ["numbers have at most seven digits and names of files are UTF-8, as the engine prints them"]
