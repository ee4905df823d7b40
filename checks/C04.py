"""C04: connections and processes sharing a database file."""
import os


def check(c):
    drv, = c.make("dbtx")
    c.model("DbTx", timeout=800)
    t = os.path.join(c.scratch, "wait.ndjson")
    ev = c.record([drv, "wait", str(c.seed), "4000" if c.quick else "15000", c.scratch], t)
    c.count_events(ev)
    c.sample({"history": ev[:14]})
    c.require("DbTxTrace", t, ntraces=2, what="long waits for a writer and for a reader")
    for i in range(1 if c.quick else 8):
        t = os.path.join(c.scratch, "rand.ndjson")
        n = 12 if c.quick else 60
        ev = c.record([drv, "rand", str(c.seed * 101 + i), str(n), c.scratch], t)
        c.count_events(ev)
        c.require("DbTxTrace", t, ntraces=n, what="random transactions and kills")
    c.assumptions += ["SQLite's own locking and journal are correct",
                      "a process is killed between two calls or while it waits inside one"]
