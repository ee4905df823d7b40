"""C02: quantum-defect answers depend only on the database contents and the level."""
import json, math, os, sqlite3

BARE, DROP, IFNOT = range(3)


def nstar(n, d):
    try:
        x = float(n - d[0])
        v = n - (d[0] + d[1] / x ** 2 + d[2] / x ** 4 + d[3] / x ** 6 + d[4] / x ** 8)
        v *= 1048576
        return int(round(v)) if abs(v) < 2e9 else -2000000000
    except (ZeroDivisionError, OverflowError):
        return -2000000000


def describe(con):
    pot, ritz, seen = [], [], set()
    for r in con.execute("select element,L,ac,Z,a1,a2,a3,a4,rc from model_potential order by rowid"):
        if ("p",) + r[:2] in seen:
            continue
        seen.add(("p",) + r[:2])
        v = [r[2], int(r[3])] + list(r[4:])
        pot.append({"s": r[0], "l": r[1], "v": ["%.17g" % x for x in v]})
    for r in con.execute("select element,L,J,d0,d2,d4,d6,d8,Ry from rydberg_ritz order by rowid"):
        if ("r",) + r[:3] in seen:
            continue
        seen.add(("r",) + r[:3])
        ritz.append({"s": r[0], "l": r[1], "j2": int(round(2 * r[2])), "d0": r[3],
                     "ns": [nstar(n, r[3:8]) for n in range(1, 131)], "ry": int(round(r[8] * 1000))})
    return pot, ritz


def line(pot, ritz):
    z = [{k: v for k, v in r.items() if k != "d0"} for r in ritz]
    return '"pot":%s,"ritz":%s\n' % (json.dumps(pot), json.dumps(z))


def custom(rng, style, which):
    """SQL text of a small database; `which` makes its numbers different from all others"""
    head = {BARE: "create table {t} ", DROP: "drop table if exists {t}; create table {t} ",
            IFNOT: "create table if not exists {t} "}[style]
    s = "begin transaction;\n"
    s += head.format(t="model_potential") + \
        "(element text, L int, ac real, Z int, a1 real, a2 real, a3 real, a4 real, rc real);\n"
    s += head.format(t="rydberg_ritz") + \
        "(element text, L int, J real, d0 real, d2 real, d4 real, d6 real, d8 real, Ry real);\n"
    for sp in ("Rb", "Sr3", "Xx"):
        if rng.random() < 0.2:
            continue
        for l in range(rng.randint(1, 4)):
            if rng.random() < 0.9:
                s += "insert into model_potential values('%s',%d,%r,%d,%r,%d,%d,0.5,1.5);\n" % (
                    sp, l, which + l / 8, which * 10 + l, rng.random(), rng.randint(-9, 9), which)
        for l in range(rng.randint(1, 5)):
            for j2 in ([2 * l - 2, 2 * l, 2 * l + 2] if sp == "Sr3" else [2 * l - 1, 2 * l + 1]):
                if j2 >= 0 and rng.random() < 0.92:
                    d = [rng.randint(0, 12) / 4 + 0.1 * rng.randint(0, 1)] + \
                        [rng.choice([0, rng.randint(-8, 8) / 4]) for _ in range(4)]
                    s += "insert into rydberg_ritz values('%s',%d,%r,%r,%r,%r,%r,%r,%d);\n" % (
                        sp, l, j2 / 2, d[0], d[1], d[2], d[3], d[4], 109000 + which * 8 + l)
    return s + "end transaction;\n"


def sibling(rng, sql):
    """the same text but for one digit of one row"""
    lines = sql.split("\n")
    rows = [i for i, x in enumerate(lines) if x.startswith("insert into")]
    if not rows:
        return sql
    k = rng.choice(rows)
    d = lines[k][-3]
    assert d.isdigit() and lines[k].endswith(");")
    lines[k] = lines[k][:-3] + str((int(d) + rng.randint(1, 8)) % 10) + ");"
    return "\n".join(lines)


def check(c):
    drv, = c.make("qdef")
    c.model("QDefectCache")
    c.model("QDefectCache", "QDefectCache_unlocked.cfg", expect_ok=False)
    rng = c.rng
    repo = os.environ.get("VERIF_REPO", "/repo")
    con = sqlite3.connect(":memory:")
    con.executescript(open(repo + "/pairinteraction/databases/quantum_defects.sql").read())
    emb = describe(con)
    open(c.scratch + "/emb.json", "w").write(line(*emb))
    species = sorted({r["s"] for r in emb[0]})
    for run in range(2 if c.quick else 12):
        ndb = 12
        texts = []
        for i in range(ndb):
            sql = custom(rng, i % 3, i + 1) if i % 2 == 0 else sibling(rng, texts[i - 1])
            texts.append(sql)
            con = sqlite3.connect(":memory:")
            con.executescript(sql)
            open(c.scratch + "/src%d.sql" % i, "w").write(sql)
            open(c.scratch + "/src%d.json" % i, "w").write(line(*describe(con)))
        # unusable contents: no tables, not SQL at all, and a text that fails half way
        for name, sql in (("empty", ""), ("text", "this is no database\n"),
                          ("half", custom(rng, BARE, 50) + "insert into nowhere values (1);\n")):
            open(c.scratch + "/%s.sql" % name, "w").write(sql)
            open(c.scratch + "/%s.json" % name, "w").write('"pot":[],"ritz":[]\n')
        # the built-in database, and the same path under two names, exist from the start
        cmds = ["write - - emb.json"]
        paths = ["a.sql", "b.sql", "c.sql", "d.sql", "e.sql", "f.sql"]
        at = {}
        for i, p in enumerate(paths):
            cmds.append("write src%d.sql %s src%d.json" % (i, p, i))
            at[p] = i

        def req(path=None, fresh=0):
            path = path if path is not None else rng.choice(["-"] * 3 + paths + ["missing.sql"])
            if path == "-":
                s = rng.choice(species + ["Nope"])
                l = rng.randint(0, 6)
            else:
                s = rng.choice(["Rb", "Sr3", "Xx", "Rb", "Li"])
                l = rng.randint(0, 5)
            sp = 2 if s.endswith("3") else 0 if s.endswith("1") else 1
            j2 = max(2 * l + rng.randrange(-sp, sp + 1, 2), 0 if sp != 1 else 1)
            n = rng.randint(max(l + 1, 8), 40 if fresh else 16)
            return "q %s %s %d %d %d" % (path, s, n, l, j2)

        for _ in range(250 if c.quick else 600):
            x = rng.random()
            if x < 0.05:
                i = rng.randrange(ndb)
                p = rng.choice(paths)
                at[p] = i
                cmds.append("write src%d.sql %s src%d.json" % (i, p, i))
            elif x < 0.08:
                k = rng.choice(["empty", "text", "half"])
                cmds.append("write %s.sql %s %s.json" % (k, rng.choice(paths), k))
            elif x < 0.09:
                cmds.append("drop " + rng.choice(paths))
            else:
                r = req()
                cmds += [r] * rng.choice([1, 1, 2])
                q = r.split()
                if q[1] in paths and rng.random() < 0.5:
                    # the same level from the database that is nearly the same, or after a rewrite
                    o = paths[min(paths.index(q[1]) ^ 1, len(paths) - 1)]
                    if rng.random() < 0.3:
                        o = q[1]
                        i = at[o] ^ 1
                        cmds.append("write src%d.sql %s src%d.json" % (i, o, i))
                        at[o] = i
                    cmds.append(" ".join(["q", o] + q[2:]))
        for i, p in enumerate(paths):
            cmds.append("write src%d.sql %s src%d.json" % (i, p, i))
        for _ in range(40 if c.quick else 150):
            k = rng.randint(2, 6)
            one = rng.choice([None, "-", "-", rng.choice(paths)])
            rs = [req(one, 1) for _ in range(k)]
            if rng.random() < 0.6:
                rs = [rs[0]] * k
            cmds += ["par %d" % k] + rs
        pairs = [("q - Rb 20 0 1", "q - Rb 20 0 1"), ("q - Cs 20 1 3", "q - Cs 75 1 3"),
                 ("q a.sql Rb 20 0 1", "q a.sql Rb 20 0 1"), ("q - Li 20 0 1", "q a.sql Rb 20 0 1"),
                 ("q a.sql Rb 40 0 1", "q b.sql Rb 40 0 1"), ("q - Na 20 1 1", "q missing.sql Rb 20 0 1")]
        for a, b in (pairs if run == 0 or not c.quick else pairs[1:3]):
            cmds += ["forced 1", a, b]
        t = os.path.join(c.scratch, "trace.ndjson")
        ev = c.record([drv, c.scratch, "3"], t, stdin="\n".join(cmds) + "\n")
        c.count_events(ev)
        c.count("refused", sum(1 for e in ev if e.get("o") == "refused"))
        if run == 0:
            c.sample({"commands": cmds[6:12], "events": ev[6:10]})
        c.require("QDefectTrace", t, what="requests over databases, files and threads")
    c.assumptions += ["the effective quantum number of a row is computed by the Rydberg-Ritz series; "
                      "it is compared within 1e-6",
                      "files are re-written only while no request is in progress"]
