"""Configurations in all their forms, and histories of atom objects of the Python back end."""
import copy

import pipygen

MICRO = 1 << 20          # distances are multiples of this part of a micrometre
DIST = [4 * MICRO, 5 * MICRO, 5 * MICRO + 1, 9 * MICRO]


class Dic:
    """a configuration dictionary; keys of the form part.name may be nested"""
    def __init__(self, rng):
        self.rng, self.d = rng, {}

    def put(self, key, v):
        if "." in key and self.rng.random() < .3:
            a, b = key.split(".", 1)
            self.d.setdefault(a, {})[b] = v
        else:
            self.d[key] = v


def limit(rng, vals, unit, choices, lo=None):
    t = rng.choice(choices)
    if t == "none":
        return {"t": "none", "a": 0, "b": 0}
    if t == "delta":
        return {"t": "delta", "a": rng.choice([0, 1, 2]) if unit else rng.choice([10, 20, 60]), "b": 0}
    w = (unit or 8)
    return {"t": "range", "a": min(vals) - w * rng.randint(0, 1), "b": max(vals) + w * rng.randint(0, 1)}


def level(sp, s):
    return 16 * s[0] + (7 if sp == "Cs" else 5) * s[1] + s[2]


def atom(rng, sp, n, pair):
    st = [pipygen.state(rng, sp) for _ in range(n)]
    a = {"sp": sp, "st": st}
    a["n"] = limit(rng, [s[0] for s in st], 1, ["delta", "range"])
    if a["n"]["t"] == "delta":
        a["n"]["a"] = rng.choice([0, 0, 1])
    for k, q in (("l", 1), ("j", 2), ("m", 3)):
        a[k] = limit(rng, [s[q] for s in st], 1 if k == "l" else 2, ["none", "delta", "range"])
    a["win"] = limit(rng, [level(sp, s) for s in st], 0, ["none", "delta", "range"])
    ms = sorted({s[3] for s in st})
    t = rng.choice(["none"] * 4 + ["cons", "list"])
    if t == "cons" and len(ms) > 1:
        t = "none"
    a["mom"] = {"t": t, "v": sorted({*ms, *([ms[0] + 2] if rng.random() < .4 else [])}) if t == "list" else []}
    a["E"] = [rng.choice([0, 0, rng.randint(-4, 4)]) for _ in range(3)]
    a["B"] = [rng.choice([0, 0, rng.randint(-4, 4)]) for _ in range(3)]
    return a


def setting(rng):
    two = rng.random() < .6
    same = rng.random() < (.4 if two else .25)
    sp = rng.choice(["Rb", "Rb", "Cs", "Sr3", "Sr1"])
    sp2 = sp if sp.startswith("Sr") else rng.choice(["Rb", "Cs"])
    c = {"two": two, "same": same, "meth": rng.choice(["WHITTAKER", "NUMEROV"]), "dia": rng.random() < .4}
    c["at"] = [atom(rng, sp, 2 if same else rng.choice([1, 1, 1, 2]), two)]
    if two and not same:
        c["at"].append(atom(rng, sp2, rng.choice([1, 1, 1, 2]), two))
    if two and not same and rng.random() < .5:
        c["at"][1].update(E=list(c["at"][0]["E"]), B=list(c["at"][0]["B"]))
    # complex numbers
    y = [a["E"][1] or a["B"][1] for a in c["at"]]
    c["explicit"] = rng.random() < .6 or (any(y) and not all(y))
    if c["explicit"] and rng.random() < .5:
        c["real"] = True
        for a in c["at"]:
            a["E"][1] = a["B"][1] = 0
    else:
        c["real"] = False if c["explicit"] else not any(y)
    c["pair"] = pair(rng, c) if two else {}
    return c


def starts(c):
    s, t = c["at"][0]["st"], c["at"][-1]["st"]
    return s, t


def pair(rng, c):
    s, t = starts(c)
    p = {"norm": 50 if rng.random() < .5 else rng.choice([0, 20, 200]), "angle": rng.choice([0, 0, 250, 500, 1500]), "dist": rng.choice([-1, *DIST]),
         "order": rng.choice([3, 3, 4, 5])}
    for k in ("inv", "per", "ref"):
        p[k] = rng.choice(["", "", "O", "E"])
    kinds = ["all", "all", "given"] + (["two"] * 2 if (c["same"] or (len(s), len(t)) == (1, 1)) else [])
    k = rng.choice(kinds)
    n = rng.choice([1, 1, 2])
    p["q"] = {"t": k, "v": [[rng.choice(s), rng.choice(t)] for _ in range(n)] if k == "given" else []}
    ps = pairstates(c, p["q"])
    ms = {x[3] + y[3] for x, y in ps}
    m = rng.choice(["none", "none", "cons", "list"])
    if m == "cons" and len(ms) > 1:
        m = "list"
    p["mom"] = {"t": m, "v": sorted({rng.choice(sorted(ms)) // 2 for _ in range(2)}) if m == "list" else []}
    lv = [level(c["at"][0]["sp"], x) + level(c["at"][-1]["sp"], y) for x, y in ps]
    p["win"] = limit(rng, lv, 0, ["none", "delta", "delta", "range"])
    return p


def pairstates(c, q):
    s, t = starts(c)
    if q["t"] == "given":
        return q["v"]
    if c["same"]:
        return [[s[0], s[1]]]
    return [[x, y] for x in s for y in t]


def real4(s):
    return [s[0], s[1], s[2] / 2, s[3] / 2]


def forms(rng, c):
    """a configuration that means c"""
    d = Dic(rng)
    two, same = c["two"], c["same"]
    if two or same or rng.random() < .4:
        d.put("nAtoms", 2 if two else 1)
    if same:
        d.put(rng.choice(["useSameAtom", "samebasis"]), True)
    elif rng.random() < .3:
        d.put(rng.choice(["useSameAtom", "samebasis"]), False)
    if c["meth"] == "WHITTAKER" or rng.random() < .6:
        d.put("method", rng.choice([c["meth"], c["meth"].lower()]))
    if c["dia"] or rng.random() < .5:
        d.put("diamagnetism", c["dia"])
    if c["explicit"]:
        d.put(rng.choice(["isReal", "atom.isReal"]), c["real"])
    n = len(c["at"])

    def single(i, name, v, shared=True, plain=True):
        """name of atom i (0, 1) has value v; shared: both atoms have it"""
        f = ["atom%d.%s" % (i + 1, name), "%s%d" % (name, i + 1)]
        if n == 1 and shared:
            f += ["atom." + name] + ([name] if plain else [])
        d.put(rng.choice(f), v)

    for i, a in enumerate(c["at"]):
        o = not two                     # names without a suffix mean the pair as well
        single(i, "species", a["sp"])
        st = a["st"]
        groups = [st] if not same else [st[:1], st[1:]]
        for k, g in enumerate(groups):
            if len(g) == 1 and rng.random() < .6:
                f = rng.choice(["atom%d.%s", "%s%d"] + ([] if two or same else ["plain", "dot"]))
                for x, v in zip("nljm", real4(g[0])):
                    d.put("atom%d.%s" % (i + k + 1, x) if f == "atom%d.%s" else "%s%d" % (x, i + k + 1) if f == "%s%d" else
                          x if f == "plain" else "atom." + x, v)
            else:
                v = [real4(s) for s in g]
                d.put(rng.choice(["atom%d.qnumbers", "qnumbers%d"]) % (i + k + 1), v[0] if len(v) == 1 and rng.random() < .5 else v)
        for q in "nljm":
            put_limit(rng, lambda name, v: single(i, name, v, not same or True, o or name.endswith("Single")), q.upper(), a[q], 1 if q in "nl" else 2, "Single")
        put_limit(rng, lambda name, v: single(i, name, v, True, o or name.endswith("Single")), "Energy", a["win"], 1, "Single")
        if a["mom"]["t"] == "cons":
            single(i, "conserveMomenta", True, True, o)
        elif a["mom"]["t"] == "list":
            v = [x / 2 for x in a["mom"]["v"]]
            single(i, "momenta", v[0] if len(v) == 1 and rng.random() < .5 else v, True, o)
        for f in "EB":
            if rng.random() < .4:
                single(i, f + "field", list(a[f]))
            else:
                for k, x in enumerate("xyz"):
                    if a[f][k] or rng.random() < .5:
                        single(i, f + x, a[f][k])
    if two:
        p = c["pair"]

        def pr(names, v, plain=True):
            name = rng.choice(names)
            d.put(rng.choice(["pair." + name] + ([name] if plain else [])), v)
        if p["order"] != 3 or rng.random() < .5:
            pr(["order", "exponent"], p["order"])
        if p["norm"] != 50 or rng.random() < .5:
            pr(["minimalNorm"], p["norm"] / 1000)
        if p["angle"] or rng.random() < .5:
            pr(["angle", "theta"], p["angle"] / 1000)
        if p["dist"] >= 0:
            pr(["distance", "R"], p["dist"] / MICRO)
        for k, full in (("inv", "inversion"), ("per", "permutation"), ("ref", "reflection")):
            if p[k]:
                pr([k, full], rng.choice({"O": ["ODD", "odd", "O", "o"], "E": ["EVEN", "even", "E", "e"]}[p[k]]))
            elif rng.random() < .3:
                pr([k, full], rng.choice([None, "NONE", "none"]))
        q = p["q"]
        if q["t"] == "two":
            pr(["useQnumbersSingleAsPair"], True)
        elif q["t"] == "given":
            v = [[real4(x), real4(y)] for x, y in q["v"]]
            k = rng.choice(["8", "24", "42"] + (["one"] if len(v) == 1 else []))
            v = {"8": [x + y for x, y in v], "one": v[0][0] + v[0][1], "24": v, "42": [[list(z) for z in zip(x, y)] for x, y in v]}[k]
            d.put("pair.qnumbers", v)
        if p["mom"]["t"] == "cons":
            d.put("pair.conserveMomenta", True)
        elif p["mom"]["t"] == "list":
            v = p["mom"]["v"]
            d.put("pair.momenta", v[0] if len(v) == 1 and rng.random() < .5 else [float(x) for x in v] if rng.random() < .5 else v)
        put_limit(rng, lambda name, v: pr([name], v, name.endswith("Pair")), "Energy", p["win"], 1, "Pair")
    return d.d


def put_limit(rng, put, Q, r, half, suffix):
    names = ["d" + Q, "delta" + Q, "d" + Q + suffix, "delta" + Q + suffix] + (["deltaE" + suffix] if Q == "Energy" else [])
    if r["t"] == "none":
        if rng.random() < .4:
            put(rng.choice(names), -1)
    elif r["t"] == "delta":
        put(rng.choice(names), r["a"])
    else:
        put("min" + Q, r["a"] / half)
        put("max" + Q, r["b"] / half)


def small(c):
    def count(a):
        def rng_(r, vals, u):
            return None if r["t"] == "none" else (min(vals) - u * r["a"], max(vals) + u * r["a"]) if r["t"] == "delta" else (r["a"], r["b"])
        st = a["st"]
        N, L, J, M = (rng_(a[k], [s[i] for s in st], u) for i, (k, u) in enumerate((("n", 1), ("l", 1), ("j", 2), ("m", 2))))
        s, k = pipygen.spin(a["sp"]), 0
        for l in range(3):
            for j in range(abs(2 * l - s), 2 * l + s + 1, 2):
                for m in range(-j, j + 1, 2):
                    k += all(r is None or r[0] <= x <= r[1] for r, x in ((L, l), (J, j), (M, m)))
        return k * (N[1] - N[0] + 1)
    n = [count(a) for a in c["at"]]
    return not c["two"] or n[0] * n[-1] <= 2500


def update(rng, c):
    u, real = {}, {}
    for x in rng.sample(["Ex", "Ez", "Bx", "Bz"] + (["Ey", "By"] if c["explicit"] and not c["real"] else []), rng.choice([0, 1, 1, 2, 3])):
        a = rng.choice(c["at"])
        v = rng.choice([rng.randint(-4, 4), a[x[0]]["xyz".index(x[1])], 0])
        u[x] = v
        real[x if not c["two"] or rng.random() < .7 else "atom." + x] = v
    if c["two"]:
        for k, name in (("dist", "distance"), ("angle", "angle"), ("inv", "inversion"), ("per", "permutation"), ("ref", "reflection")):
            if rng.random() < .25:
                if k == "dist":
                    u[k] = rng.choice(DIST)
                    real[name] = u[k] / MICRO
                elif k == "angle":
                    u[k] = rng.choice([0, 250, 500, 1500])
                    real[name] = u[k] / 1000
                else:
                    u[k] = rng.choice(["O", "E"])
                    real[name] = {"O": "ODD", "E": "EVEN"}[u[k]]
    return u, real


def history(rng):
    ops, kinds = [], {}

    def make(i):
        while True:
            c = setting(rng)
            if small(c):
                break
        kinds[i] = [c, True]
        ops.append({"o": "Make", "i": i, "c": {k: v for k, v in c.items() if k != "explicit"}, "cfg": forms(rng, c), "cls": rng.random() < .5})

    make(1)
    for _ in range(rng.randint(4, 14)):
        i = rng.choice(list(kinds))
        k = rng.choice(["Update"] * 6 + ["Calc", "Calc", "Delete", "Copy", "Again", "Refused", "Make"])
        if k == "Update":
            u, real = update(rng, kinds[i][0])
            ops.append({"o": k, "i": i, "u": u, "real": real})
        elif k == "Refused":
            ops.append({"o": k, "i": i, "real": {rng.choice(["n", "species", "Exx", "order", "Ez1"]): 1, "Ex": 3}})
        elif k in ("Copy", "Again"):
            to = rng.choice([1, 2, 3])
            if to == i:
                continue
            ops.append({"o": k, "i": i, "to": to})
            kinds[to] = [kinds[i][0], kinds[i][1] and k == "Copy"]
        elif k == "Make":
            make(rng.choice([1, 2, 3]))
        elif k == "Calc":
            if kinds[i][1] and not kinds[i][0]["two"]:
                for _ in range(rng.choice([1, 2])):
                    ops.append({"o": k, "i": i, "sort": rng.random() < .5, "ov": rng.random() < .5, "sp": kinds[i][0]["at"][0]["sp"],
                                "st": [real4(s) for s in kinds[i][0]["at"][0]["st"]]})
        else:
            ops.append({"o": k, "i": i})
        if rng.random() < .3 and len(kinds) > 1:
            ops.append({"o": "See", "i": rng.choice(list(kinds))})
    return ops
