"""C17: a two-atom basis is the symmetric part of the products of the one-atom vectors."""
import json, os
import twogen


def requests(c, num):
    drv, = c.make("two")
    t = os.path.join(c.scratch, "basis.ndjson")
    qs = [twogen.request(c.rng) for _ in range(num)]
    ev = c.record([drv], t, stdin="".join(json.dumps(q) + "\n" for q in qs))
    c.count_events(ev)
    for e in ev:
        if e["event"] != "Request":
            continue
        q = e["q"]
        sym = "+".join([k for k in ("perm", "inv", "refl") if q[k]] + (["rot"] if q["rot"] else [])) or "none"
        c.count("sector:" + sym)
        c.count("refused" if e["st_err"] else "answered")
        c.count("mixed_vectors" if any(len([r for r in q[a]["B"] if r[i] != [0, 0]]) > 1 for a in ("one", "two") for i in range(q[a]["k"])) else "pure_vectors")
    c.sample({"request": next((e["q"] for e in ev if e["event"] == "Request"), None)})
    c.require("TwoBasisTrace", t, ntraces=num, what="requests for two-atom bases", timeout=850)


def check(c):
    c.model("TwoBasisMC", "TwoBasisMC.cfg")
    c.model("TwoBasisMC", "TwoBasisMC_double.cfg", expect_ok=False)
    for i in range(1 if c.quick else 12):
        requests(c, 1500 if c.quick else 3000)
    c.assumptions += ["reflection is asked for only with one-atom vectors that are mirror symmetric themselves (a documented limitation: "
                      "the library warns that the one-atom states must be symmetrised), momenta only with vectors of definite momentum",
                      "amplitudes and energies are compared to 3/1000"]
