"""C19: stores of matrix elements."""
import json, os, re, sqlite3


def databases(c):
    """the built-in defect database and two others: levels moved, one species missing"""
    repo = os.environ.get("VERIF_REPO", "/repo")
    con = sqlite3.connect(":memory:")
    con.executescript(open(repo + "/pairinteraction/databases/quantum_defects.sql").read())
    for k, (move, drop) in enumerate(((0.0625, "Sr3"), (-0.03125, "Cs"))):
        s = "".join("create table %s;\n" % t for t in
                    ("model_potential (element text, L int, ac real, Z int, a1 real, a2 real, a3 real, a4 real, rc real)",
                     "rydberg_ritz (element text, L int, J real, d0 real, d2 real, d4 real, d6 real, d8 real, Ry real)"))
        for t in ("model_potential", "rydberg_ritz"):
            for r in con.execute("select * from " + t):
                if r[0] == drop:
                    continue
                r = list(r)
                if t == "rydberg_ritz":
                    r[3] += move
                s += "insert into %s values(%s);\n" % (t, ",".join("'%s'" % x if isinstance(x, str) else repr(x) for x in r))
        open("%s/db%d.sql" % (c.scratch, k + 2), "w").write("begin transaction;\n" + s + "end transaction;\n")
    return ["", "db2.sql", "db3.sql"]


def level(rng, sp, n0):
    s2 = {"Sr3": 2, "Sr1": 0}.get(sp, 1)
    l = rng.choice([0, 1, 1, 2, 2, 3])
    j2 = rng.choice([j for j in range(abs(2 * l - s2), 2 * l + s2 + 1, 2)])
    return [n0 + rng.randint(0, 1), l, j2]


def configuration(c, dbs, k):
    rng = c.rng
    main = rng.choice(["Rb", "Rb", "Rb", "Cs", "Sr1", "Sr3"])
    sp = [main] * 5 + [rng.choice(["Rb", "Cs", "Sr1", "Sr3"])] * 2 + (["Xy"] if rng.random() < 0.7 else [])
    n0 = rng.choice([12, 15, 20])
    st = []
    if k % 5 == 1:  # singlet and triplet states of the same levels
        lv = [[n0 + i, l, 2 * l] for i, l in ((0, 1), (0, 2), (1, rng.choice([1, 2, 3])))]
        m = [rng.randrange(-x[2], x[2] + 1, 2) for x in lv]
        for s in ("Sr3", "Sr1"):
            for x, y in zip(lv, m):
                st.append({"sp": s, "n": x[0], "l": x[1], "j2": x[2], "m2": y})
        main, sp = "Sr3", ["Xy"]
    for s in sp:
        n, l, j2 = level(rng, s, n0)
        if st and rng.random() < 0.4 and st[-1]["sp"] == s:
            n, l, j2 = (st[-1][x] for x in ("n", "l", "j2"))
        st.append({"sp": s, "n": n, "l": l, "j2": j2, "m2": rng.randrange(-j2, j2 + 1, 2)})
    req = []
    for i in range(16):
        a, b = rng.randint(1, len(st)), rng.randint(1, len(st))
        for _ in range(3):
            if st[a - 1]["sp"] != st[b - 1]["sp"] or rng.random() < 0.3:
                b = rng.randint(1, len(st))
        kind = rng.choice(["Dip", "Dip", "Multi", "Multi", "Radial", "Mag", "Dia"])
        kr, ka = {"Dip": (1, 1), "Mag": (0, 1)}.get(kind, (rng.choice([1, 1, 2, 3]), 0))
        if kind == "Dia":
            kr, ka = 2, rng.choice([0, 2])
        elif kind == "Multi":
            ka = kr if rng.random() < 0.8 else rng.choice([1, 2])
        req.append({"k": kind, "a": a, "b": b, "kr": kr, "ka": ka})
        if rng.random() < 0.4 and len(req) < 16:
            req.append(dict(req[-1], a=b, b=a))
    csv = []
    for t in range(2):
        rows, seen = [], set()
        own = [s for s in st if s["sp"] == main]
        for _ in range(30):
            a, b = ([s["n"], s["l"], s["j2"]] for s in (rng.choice(own), rng.choice(own)))
            if abs(a[1] - b[1]) == 1 and abs(a[2] - b[2]) <= 2 and a[2] + b[2] >= 2 and tuple(sorted((tuple(a), tuple(b)))) not in seen:
                seen.add(tuple(sorted((tuple(a), tuple(b)))))
                rows.append(a + b + [round(rng.uniform(0.3, 30), 3)])
        name = "lit%d_%d.csv" % (k, t)
        with open(os.path.join(c.scratch, name), "w") as f:
            if rng.random() < 0.8:
                f.write('"n1";"l1";"j1";"n2";"l2";"j2";"dipole matrix element";"comment"\n')
            for r in rows:
                f.write("%d;%d;%.1f;%d;%d;%.1f;%r%s\n" % (r[0], r[1], r[2] / 2, r[3], r[4], r[5] / 2, r[6], rng.choice(["", ';"table V"', ";;1"])))
            if rng.random() < 0.3:
                f.write("\n")
        csv.append({"sp": main, "rows": rows, "file": name})
    old = [i + 1 for i, q in enumerate(req) if st[q["a"] - 1]["sp"] == st[q["b"] - 1]["sp"] and st[q["a"] - 1]["sp"] in ("Rb", "Cs", "Xy")
           and not (q["k"] == "Multi" and q["kr"] != q["ka"])]
    if not old:
        return configuration(c, dbs, k)
    return {"st": st, "req": req, "csv": csv, "dbs": dbs, "ndb": len(dbs), "oldreq": old}


def check(c):
    drv, = c.make("store")
    c.model("StoreMC", "StoreMC.cfg" if c.quick else "StoreMC_big.cfg", timeout=850)
    for slip in ("keep", "poison", "lost", "torn"):
        c.model("StoreMC", "StoreMC_%s.cfg" % slip, expect_ok=False, timeout=300)
    dbs = databases(c)
    for i in range(1 if c.quick else 8):
        cfgs = [configuration(c, dbs, k) for k in range(10 if c.quick else 20)]
        cf = os.path.join(c.scratch, "configs.ndjson")
        c.write_trace(cf, cfgs)
        beh = c.generate("StoreGen", num=120 if c.quick else 300, depth=40, env={"CONFIGS": cf}, seed=c.seed * 17 + i)
        beh.sort(key=lambda b: b["n"])
        c.sample({"generated_history": ["%s@%d %s" % (o["o"], o["s"], json.dumps(o["a"])) for o in beh[0]["h"]]})
        t = os.path.join(c.scratch, "store.ndjson")
        w = os.path.join(c.scratch, "work")
        if os.environ.get("KEEP"):
            open(os.environ["KEEP"], "w").write("".join(json.dumps({"cfg": cfgs[b["n"] - 1], "dirs": b["dirs"], "ops": b["h"]}) + "\n" for b in beh))
        ev = c.record([drv, c.scratch], t, stdin="".join(json.dumps({"cfg": cfgs[b["n"] - 1], "dirs": b["dirs"], "ops": b["h"]}) + "\n" for b in beh))
        c.count_events(ev)
        for e in ev:
            for g in ([e["got"]] if isinstance(e.get("got"), dict) else e.get("got", [])):
                c.count("killed" if g["killed"] else "child ended")
        c.require("StoreTrace", t, ntraces=len(beh), what="generated histories", timeout=850)
    c.assumptions += ["a killed process loses what it had not yet written: what the operating system holds is not lost (no power failure)",
                      "objects are used by one thread at a time"]
