"""C16: a two-atom system depends only on its final geometry."""
import json, os
import twogen


def histories(c, num, seed):
    drv, = c.make("two")
    cfgs = [twogen.configuration(c.rng) for _ in range(max(200, num))]
    cf = os.path.join(c.scratch, "configs.ndjson")
    c.write_trace(cf, cfgs)
    beh = c.generate("TwoGen", num=num, depth=40, env={"CONFIGS": cf}, seed=seed)
    c.sample({"generated_history": ["%s@%d %s" % (o["o"], o["s"], json.dumps(o["a"])) for o in beh[0]["h"]]})
    t = os.path.join(c.scratch, "two.ndjson")
    ev = c.record([drv], t, stdin="".join(json.dumps({"cfg": cfgs[b["n"] - 1], "ops": b["h"]}) + "\n" for b in beh))
    c.count_events(ev)
    for e in ev:
        if e.get("res_err"):
            c.count("refused:" + e["event"])
    c.require("TwoTrace", t, ntraces=len(beh), what="generated histories", timeout=850)


def check(c):
    c.model("TwoMC", "TwoMC.cfg")
    for slip in "terms", "kept", "refused", "forget":
        c.model("TwoMC", "TwoMC_%s.cfg" % slip, expect_ok=False)
    for i in range(1 if c.quick else 10):
        histories(c, 400 if c.quick else 1500, c.seed * 59 + i)
    c.assumptions += ["matrix elements and level energies are supplied by the driver (link-time replacement) so that every "
                      "Hamiltonian is known exactly; what the library's own elements are is decided by C19 and C20",
                      "geometries whose lengths are integers (or refused); the driver's entries are compared to the rounding of the tensors"]
