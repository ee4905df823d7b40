"""C11: pair Hamiltonians and their symmetry sectors."""
import os


def check(c):
    drv, = c.make("combine")
    c.model("PairMC")
    for i in range(1 if c.quick else 12):
        t = os.path.join(c.scratch, "pair.ndjson")
        n = 150 if c.quick else 200
        ev = c.record([drv, str(c.seed * 23 + i), str(n), "7" if c.quick else "9"], t)
        c.count_events(ev)
        c.sample({k: (v if k != "cols" else v[:3]) for k, v in ev[1].items()})
        c.require("PairTrace", t, ntraces=n, what="pair Hamiltonians", timeout=900)
    c.assumptions += ["the atoms have spin 1/2 and diagonal one-atom Hamiltonians",
                      "inversion and permutation are asked for identical one-atom Hamiltonians, reflection "
                      "for bases of pure states closed under it with energies independent of the sign of m"]
