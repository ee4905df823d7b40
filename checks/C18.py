"""C18: the Green tensor is that of the geometry set last."""
import json, os
import geometry


def check(c):
    for slip in ("", "_kept", "_stays"):
        c.model("GreenMC", "GreenMC%s.cfg" % slip, expect_ok=not slip, timeout=300)
    drv, = c.make("green")
    gs = geometry.green(9 if c.quick else 12)
    c.rng.shuffle(gs)
    plates = [g for g in gs if g["plates"]]
    for i in range(1 if c.quick else 8):
        some = (plates + gs[:max(200, len(plates))]) if c.quick else plates * 2 + gs
        cf = os.path.join(c.scratch, "geometries.ndjson")
        c.write_trace(cf, some)
        beh = c.generate("GreenGen", num=1200 if c.quick else 4000, depth=20, env={"CONFIGS": cf}, seed=c.seed * 31 + i)
        c.sample({"geometry": some[beh[0]["n"] - 1], "generated_history": beh[0]["h"]})
        t = os.path.join(c.scratch, "green.ndjson")
        ev = c.record([drv], t, stdin="".join(json.dumps({"g": some[b["n"] - 1], "ops": b["h"]}) + "\n" for b in beh))
        c.count_events(ev)
        c.count("geometries", len({b["n"] for b in beh}))
        for e in ev:
            if e.get("res_err"):
                c.count("refused plates")
        c.require("GreenTrace", t, ntraces=len(beh), what="generated histories", timeout=850)
    c.assumptions += ["geometries whose lengths are integers, so that the tensors times a power of the length are integers",
                      "the plate is perfectly conducting and lies in the plane z = 0, the surface distance is that of the middle of the atoms (as documented)"]
