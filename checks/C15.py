"""C15: a one-atom system contains exactly the requested states and symmetry."""
import json, os
import onegen


def check(c):
    drv, = c.make("one")
    for i in range(1 if c.quick else 12):
        qs = [onegen.request(c.rng) for _ in range(1500 if c.quick else 3000)]
        c.sample({"request": qs[0]})
        t = os.path.join(c.scratch, "requests.ndjson")
        ev = c.record([drv], t, stdin="".join(json.dumps(q) + "\n" for q in qs))
        c.count_events(ev)
        for e in ev:
            if "q" in e:
                c.count("refused" if e["st_err"] else "answered")
                if e["q"]["refl"]:
                    c.count("with reflection")
                if e["q"]["rot"]:
                    c.count("with conserved momenta")
        c.require("OneBasisTrace", t, ntraces=len(ev), what="requests for a basis", timeout=850)
    c.assumptions += ["level energies are supplied by the driver so that energy windows are exact"]
