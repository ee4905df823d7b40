"""C10: stored matrices."""
import json
import os
import vf


def check(c):
    drv, = c.make("hmat")
    c.model("MatFileMC")
    beh = c.generate("MatFileMC", "MatFileGen.cfg", mode="bfs")
    t = os.path.join(c.scratch, "files.ndjson")
    whole = [b for b in beh if not b["mixed"]]
    mixed = [b for b in beh if b["mixed"]]
    part = c.rng.sample(whole, 60 if c.quick else 400) + c.rng.sample(mixed, 40 if c.quick else 300)
    ev = c.record([drv, "files", str(c.seed), c.scratch, "12" if c.quick else "3"], t,
                  stdin="\n".join(json.dumps(b) for b in part))
    c.count_events(ev)
    c.require("MatFileTrace", t, ntraces=len(part), what="files made by the specification", timeout=900)
    for i in range(1 if c.quick else 10):
        t = os.path.join(c.scratch, "saved.ndjson")
        n = 25 if c.quick else 40
        ev = c.record([drv, "saved", str(c.seed + i), c.scratch, "4" if c.quick else "1", str(n)], t)
        c.count_events(ev)
        c.sample(ev[0])
        c.require("MatFileTrace", t, ntraces=n, what="files saved by the program", timeout=900)
    saved = [{"f": e["f"], "cplx": e["cplx"]} for e in ev if e["event"] == "Saved"]
    t = os.path.join(c.scratch, "py.ndjson")
    part = c.rng.sample(whole, 60 if c.quick else 800) + saved
    ev = c.record(["python3-vt", os.path.join(vf.VERIF, "harness/py/pyread.py"),
                   os.path.join(vf.REPO, "pairinteraction_gui/loader.py"), c.scratch, str(c.seed),
                   "20" if c.quick else "3"], t, stdin="\n".join(json.dumps(b) for b in part))
    c.count_events(ev)
    c.require("MatFileTrace", t, ntraces=len(part), what="files read by the graphical interface",
              timeout=900)
    c.assumptions += ["the format has no checksum: an altered number of the right form is read as it "
                      "stands, an altered form is refused"]
