"""C20: selection rules and the exact angular part of matrix elements."""
import os


def check(c):
    drv, = c.make("mel")
    c.model("MultMC", "MultMC.cfg" if c.quick else "MultMC_big.cfg", timeout=850)
    c.model("MultMC", "MultMC_wrong.cfg", expect_ok=False, timeout=300)
    for i in range(1 if c.quick else 6):
        t = os.path.join(c.scratch, "mel%d.ndjson" % i)
        d = os.path.join(c.scratch, "db%d" % i)
        os.makedirs(d)
        ev = c.record([drv, str(c.seed * 31 + i), "2" if c.quick else "3", "35" if c.quick else "50", d], t)
        c.count_events(ev)
        c.count("pairs", sum(len(e.get("c", [])) for e in ev))
        c.sample({k: ev[3][k][:6] if isinstance(ev[3][k], list) else ev[3][k] for k in ev[3]})
        c.require("MultTrace", t, ntraces=len(ev), what="rows of elements", timeout=850)
    c.assumptions += ["elements are judged in units of the radial integral the library reports (radial integrals of the same "
                      "pair are one number for the store, see C19); accuracy 0.006 of it, exact zeros exactly"]
