"""C01: the in-memory cache is one atomic write-once map."""
import os


def check(c):
    drv, = c.make("cache")
    # the design
    c.model("Cache")
    c.model("CacheLock")
    c.model("CacheLock", "CacheLock_unlocked.cfg", expect_ok=False)
    # all sequential histories of a small instance, generated by TLC
    beh = c.generate("CacheGen", mode="bfs")
    script = "".join("N\n" + "\n".join(b) + "\n" for b in beh)
    for modulo in (1, 1000):
        t = os.path.join(c.scratch, "script%d.ndjson" % modulo)
        ev = c.record([drv, "script", "0", str(modulo)], t, stdin=script)
        c.count_events(ev)
        c.require("CacheTrace", t, ntraces=len(beh), what="generated sequential histories")
    c.sample({"generated_history": beh[len(beh) // 2]})
    n = 1 if c.quick else 8
    rounds = 4 if c.quick else 30
    for i in range(n):
        t = os.path.join(c.scratch, "seq.ndjson")
        ev = c.record([drv, "seq", str(c.seed * 1000 + i), str(rounds)], t)
        c.count_events(ev)
        c.require("CacheTrace", t, ntraces=3 * rounds, what="long sequential histories")
    t = os.path.join(c.scratch, "forced.ndjson")
    ev = c.record([drv, "forced", "0", "8" if c.quick else "30"], t)
    c.count_events(ev)
    c.notes["forced_interleavings"] = sum(1 for e in ev if e["event"] == "Reset")
    c.sample({"forced_history": ev[300:312]})
    c.require("CacheTrace", t, ntraces=c.notes["forced_interleavings"],
              what="operation suspended at each callback while another runs")
    for i in range(1 if c.quick else 10):
        t = os.path.join(c.scratch, "rand.ndjson")
        r = 150 if c.quick else 500
        ev = c.record([drv, "rand", str(c.seed * 7919 + i), str(r)], t)
        c.count_events(ev)
        c.require("CacheTrace", t, ntraces=r, what="free-running threads")
    c.assumptions += ["std::mutex and std::unordered_map behave as specified",
                      "interleavings are forced at the points where the cache calls the key or "
                      "element type; between two such points they are sampled"]
