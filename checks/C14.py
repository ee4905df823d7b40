"""C14: a one-atom system depends only on its final field settings."""
import json, os
import onegen


def histories(c, num, seed):
    drv, = c.make("one")
    cfgs = [onegen.configuration(c.rng) for _ in range(max(200, num))]
    cf = os.path.join(c.scratch, "configs.ndjson")
    c.write_trace(cf, cfgs)
    beh = c.generate("OneGen", num=num, depth=40, env={"CONFIGS": cf}, seed=seed)
    c.sample({"generated_history": ["%s@%d %s" % (o["o"], o["s"], json.dumps(o["a"])) for o in beh[0]["h"]]})
    t = os.path.join(c.scratch, "one.ndjson")
    ev = c.record([drv], t, stdin="".join(json.dumps({"cfg": cfgs[b["n"] - 1], "ops": b["h"]}) + "\n" for b in beh))
    c.count_events(ev)
    for e in ev:
        if e.get("res_err"):
            c.count("refused:" + e["event"])
    c.require("OneTrace", t, ntraces=len(beh), what="generated histories", timeout=850)


def check(c):
    c.model("OneMC", "OneMC.cfg" if c.quick else "OneMC_big.cfg", timeout=850)
    for slip in ("forget", "halfway", "stale"):
        c.model("OneMC", "OneMC_%s.cfg" % slip, expect_ok=False, timeout=300)
    for i in range(1 if c.quick else 10):
        histories(c, 500 if c.quick else 1500, c.seed * 53 + i)
    c.assumptions += ["matrix elements and level energies are supplied by the driver (link-time replacement) so that every "
                      "Hamiltonian is exact; what the library's own elements are is decided by C19 and C20",
                      "entries are compared to 1/1000 (after a diagonalisation: to the rounding of the reported vectors)"]
