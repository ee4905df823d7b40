"""C24: rotations follow the rotation group."""
import json, os
import rotgen


def run(c, num, others, seed):
    drv, phys = c.make("rot", "rotphys")
    cfgs = [rotgen.configuration(c.rng) for _ in range(num)]
    cf = os.path.join(c.scratch, "configs.ndjson")
    c.write_trace(cf, cfgs)
    beh = c.generate("RotGen", num=num, depth=20, env={"CONFIGS": cf}, seed=seed)
    lines = [{"k": "history", "cfg": cfgs[b["n"] - 1], "ops": b["h"]} for b in beh]
    lines += [rotgen.wigner(c.rng) for _ in range(10 * others)]
    lines += [rotgen.large(c.rng) for _ in range(others // 5)] + [rotgen.pair(c.rng) for _ in range(others)]
    lines += [rotgen.large(c.rng, c.rng.randint(50, 90))] + [rotgen.axes(c.rng) for _ in range(3 * others)] + [rotgen.turns(c.rng) for _ in range(others)]
    t = os.path.join(c.scratch, "rot.ndjson")
    ev = c.record([drv], t, stdin="".join(json.dumps(x) + "\n" for x in lines))
    c.count_events(ev)
    for e in ev:
        if e.get("res_err"):
            c.count("refused:" + e["event"])
    c.require("RotTrace", t, ntraces=len(lines), what="histories of rotations", timeout=850)
    t2 = os.path.join(c.scratch, "phys.ndjson")
    ev = c.record([phys], t2, stdin="".join(json.dumps(rotgen.physical(c.rng)) + "\n" for _ in range(others)), cwd=c.scratch)
    c.count_events(ev)
    c.require("RotTrace", t2, ntraces=others, what="fields and interactions in rotated coordinates", timeout=850)


def check(c):
    c.model("RotMC", "RotMC.cfg" if c.quick else "RotMC_big.cfg")
    c.model("RotMC", "RotMC_transposed.cfg", expect_ok=False)
    for i in range(1 if c.quick else 10):
        run(c, 300 if c.quick else 600, 100 if c.quick else 300, c.seed * 61 + i)
    c.assumptions += ["angles whose half has rational cosine and sine (3-4-5) and multiples of a quarter turn",
                      "systems hold all Zeeman levels of their states (the library warns that rotations are incomplete otherwise)",
                      "amplitudes are compared to 3/1000, tables of momenta up to 45 to 12/1000 or 1/8 per level"]
