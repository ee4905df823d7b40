"""C03: statements deliver every row once and enforce their life cycle."""
import os


def check(c):
    drv, = c.make("sql")
    c.model("Sql", None if c.quick else "Sql_big.cfg", timeout=800)
    beh = c.generate("SqlGen", num=60 if c.quick else 400, depth=60)
    if c.quick:
        beh = c.rng.sample(beh, min(len(beh), 300))
    c.sample({"generated_behaviour": beh[0]})
    t = os.path.join(c.scratch, "script.ndjson")
    ev = c.record([drv, "script", str(c.seed)], t,
                  stdin="".join("new\n" + "\n".join(b) + "\n" for b in beh))
    c.count_events(ev)
    c.require("SqlTrace", t, ntraces=len(beh), what="behaviours generated from the specification")
    for i in range(1 if c.quick else 6):
        t = os.path.join(c.scratch, "sizes.ndjson")
        n = 12 if c.quick else 40
        ev = c.record([drv, "sizes", str(c.seed + i), str(n)], t)
        c.count_events(ev)
        c.require("SqlTrace", t, ntraces=n + 1, what="all result sizes up to %d" % n)
        t = os.path.join(c.scratch, "rand.ndjson")
        n = 40 if c.quick else 200
        ev = c.record([drv, "rand", str(c.seed * 31 + i), str(n), "150"], t)
        c.count_events(ev)
        c.require("SqlTrace", t, ntraces=n, what="random histories")
    c.assumptions += ["SQLite itself executes single statements correctly",
                      "a result is read to its end or reset before other statements change the table"]
