"""C25: perturbative coefficients are those of second-order perturbation theory."""
import json, os


def check(c):
    drv, = c.make("perturb")
    c.model("PerturbMC", None if c.quick else "PerturbMC_deep.cfg", timeout=800)
    for slip in "middle", "between":
        c.model("PerturbMC", "PerturbMC_%s.cfg" % slip, expect_ok=False)
    for i in range(1 if c.quick else 12):
        beh = c.generate("PerturbGen", num=12 if c.quick else 60, depth=60, seed=c.seed * 71 + i)
        beh = beh[:18] if c.quick else beh
        qs = [dict(q, default=c.rng.random() < 0.5) for b in beh for q in b]
        c.sample({"pairs_to_ask_about": qs[0]})
        t = os.path.join(c.scratch, "perturb.ndjson")
        ev = c.record([drv], t, stdin="".join(json.dumps(q) + "\n" for q in qs))
        c.count_events(ev)
        for e in ev:
            if e["event"] == "Matrix" and e["o"] == "ok":
                n = len(e["pairs"])
                c.count("coupled_in_second_order", sum(e["c6"][i][j] != 0 for i in range(n) for j in range(i)))
                c.count("coupled_in_first_order", sum(e["c3"][i][j] != 0 for i in range(n) for j in range(i)))
                c.count("coupled_with_l_two_apart", sum(e["c6"][i][j] != 0 and any(abs(e["pairs"][i][k]["q"][1] - e["pairs"][j][k]["q"][1]) == 2 for k in (0, 1)) for i in range(n) for j in range(i)))
        c.require("PerturbTrace", t, ntraces=len(qs), what="coefficients of generated pairs", timeout=850)
    c.assumptions += ["dipole elements and level energies are supplied by the driver (link-time replacement), so that every "
                      "coefficient is a rational number; what the library's own elements are is decided by C19 and C20",
                      "no pair is degenerate with one it visits (there the coefficient does not exist)"]
