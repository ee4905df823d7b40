"""Configurations of the calculation engine."""
EUNIT, BUNIT, RUNIT = 0.5, 20., 2.


def config(rng, small=False, two=None):
    sp = rng.choice(["Rb", "Rb", "Cs", "Sr3", "Li"])
    steps = rng.choice([1, 2, 3, 4] if small else [1, 2, 3, 4, 5, 7])
    half = 0 if sp == "Sr3" else 1
    same = rng.random() < 0.5

    def state(n0):
        l = rng.choice([0, 0, 1, 2])
        s = [0.5, -0.5]
        j = abs(l + rng.choice(s))
        m = rng.choice([x + 0.5 for x in range(int(-j - 0.5), int(j + 0.5))])
        return n0, l, j, m
    if half == 0:
        sp = "Rb"
    n0 = rng.choice([30, 40, 52])
    a = state(n0)
    b = a if rng.random() < 0.4 else state(n0 + rng.randint(0, 1))
    sp2 = sp if same or rng.random() < 0.6 else rng.choice(["Rb", "Cs", "Li"])
    wide = rng.random() < 0.25 and not small
    c = {"species1": sp, "n1": a[0], "l1": a[1], "j1": a[2], "m1": a[3],
         "species2": sp2, "n2": b[0], "l2": b[1], "j2": b[2], "m2": b[3],
         "samebasis": same, "deltaNSingle": 1 if wide else rng.choice([0, 0, 0, 1]), "deltaLSingle": rng.choice([0, 1, 1, 2]),
         "deltaJSingle": rng.choice([-1, -1, 1]), "deltaMSingle": rng.choice([-1, 0, 1, 1]),
         "deltaESingle": rng.choice([-1, -1, 20, 100, 500]), "diamagnetism": rng.random() < 0.5,
         "deltaEPair": rng.choice([-1, 5, 50, 200]), "deltaNPair": rng.choice([-1, -1, 0]), "deltaLPair": rng.choice([-1, -1, 0, 1]),
         "deltaJPair": rng.choice([-1, -1, 0, 1]), "deltaMPair": rng.choice([-1, -1, 0, 1]),
         "conserveM": False, "exponent": rng.choice([0, 3, 3, 4, 5]), "steps": steps,
         "missingCalc": rng.random() < 0.6, "missingWhittaker": True, "sametrafo": rng.random() < 0.5, "zerotheta": rng.random() < 0.5,
         "dd": True, "dq": False, "qq": False, "precision": 1e-12}
    for k in ("invE", "invO", "perE", "perO", "refE", "refO"):
        c[k] = False
    typ = rng.choice(["real", "complex"])
    f = {k: (0, 0) for k in ("Ex", "Ey", "Ez", "Bx", "By", "Bz")}
    fields = rng.random() < 0.7
    if fields:
        d = max(steps - 1, 1)
        for k in f:
            if rng.random() < 0.4 and (k[1] != "y" or typ == "complex"):
                lo = rng.randint(-3, 3)
                f[k] = (lo, lo + (d * rng.randint(-2, 2) if rng.random() < 0.7 else 0))
    longitudinal = all(f[k] == (0, 0) for k in f if k[1] != "z")
    for k, (lo, hi) in f.items():
        u = EUNIT if k[0] == "E" else BUNIT
        c["min" + k], c["max" + k] = float("%.12g" % (lo * u)), float("%.12g" % (hi * u))
    c["conserveM"] = longitudinal and rng.random() < 0.5
    if same:
        if rng.random() < 0.3 and all(f[k] == (0, 0) for k in f if k[0] == "E"):
            c["invE"], c["invO"] = rng.choice([(True, False), (False, True), (True, True)])
        if rng.random() < 0.4:
            c["perE"], c["perO"] = rng.choice([(True, False), (False, True), (True, True)])
    # (if the basis does not contain its mirror images, this is refused)
    if rng.random() < (0.5 if c["deltaMSingle"] < 0 and c["deltaMPair"] < 0 else 0.15):
        c["refE"], c["refO"] = rng.choice([(True, False), (False, True), (True, True)])
    if two is None:
        two = rng.random() < 0.7
    if two:
        lo = rng.randint(1, 3)
        hi = lo + (max(steps - 1, 1) * rng.randint(-0, 2) if rng.random() < 0.7 else 0)
        c["minR"], c["maxR"] = lo * RUNIT, hi * RUNIT
    if not same and rng.random() < 0.25:
        x = rng.choice("12")
        for k in rng.choice([("species", "n", "l", "j", "m"), ("m",)]):
            del c[k + x]
    # number of pairs
    est = (2 * c["deltaNSingle"] + 1) * (1 + 2 * c["deltaLSingle"]) * 6
    if c["deltaMSingle"] >= 0:
        est = est * (0.3 if c["deltaMSingle"] == 0 else 0.6)
    if est * est > (700 if small else 1500) and two:
        return config(rng, small, two)
    return c, typ


def symmetric(rng):
    """two like atoms without electric field, with several symmetries"""
    while True:
        c, typ = config(rng, True, True)
        if c["samebasis"] and "m1" in c and "m2" in c:
            break
    for k in ("Ex", "Ey", "Ez", "Bx", "By"):
        c["min" + k] = c["max" + k] = 0.
    for a, b in (("invE", "invO"), ("perE", "perO"), ("refE", "refO")):
        c[a], c[b] = rng.choice([(False, False), (True, False), (False, True), (True, True), (True, True)])
    if c["minBz"] or c["maxBz"] or rng.random() < 0.4:
        c["refE"] = c["refO"] = False
    if c["refE"] or c["refO"]:
        c["deltaMSingle"] = c["deltaMPair"] = -1
    c["conserveM"] = rng.random() < 0.6
    c["sametrafo"], c["zerotheta"] = rng.random() < 0.6, rng.random() < 0.5
    if c["deltaMSingle"] < 0:
        c["deltaLSingle"] = min(c["deltaLSingle"], 1)
    return c, typ


def record(c, typ):
    """the configuration as the specification takes it"""
    a1 = all(k + "1" in c for k in ("species", "n", "l", "j", "m"))
    a2 = all(k + "2" in c for k in ("species", "n", "l", "j", "m"))
    F = ("Ex", "Ey", "Ez", "Bx", "By", "Bz")

    def mil(x):
        return int(round(x * 1000))
    lo = [mil(c["min" + k] / (EUNIT if k[0] == "E" else BUNIT)) for k in F]
    hi = [mil(c["max" + k] / (EUNIT if k[0] == "E" else BUNIT)) for k in F]
    s1 = [c["n1"], c["l1"], round(2 * c["j1"]), round(2 * c["m1"])] if a1 else []
    s2 = [c["n2"], c["l2"], round(2 * c["j2"]), round(2 * c["m2"])] if a2 else []

    def twice(x):
        return 2 * x if x >= 0 else -1
    return {"same": c["samebasis"], "a1": a1, "a2": a2, "sp1": c.get("species1", ""), "sp2": c.get("species2", ""),
            "real": typ == "real", "fy": any(c[m + k] != 0 for m in ("min", "max") for k in ("Ey", "By")),
            "const": lo == hi, "steps": c["steps"], "r": "minR" in c, "rmin": mil(c.get("minR", 0)), "rmax": mil(c.get("maxR", 0)),
            "s1": s1, "s2": s2, "dn": c["deltaNSingle"], "dl": c["deltaLSingle"], "dj": twice(c["deltaJSingle"]), "dm": twice(c["deltaMSingle"]),
            "deltae": c["deltaESingle"], "pn": c["deltaNPair"], "pl": c["deltaLPair"], "pj": twice(c["deltaJPair"]), "pm": twice(c["deltaMPair"]),
            "fmin": lo, "fmax": hi, "inve": c["invE"], "invo": c["invO"], "pere": c["perE"], "pero": c["perO"], "refe": c["refE"], "refo": c["refO"],
            "consm": c["conserveM"], "sametrafo": c["sametrafo"], "zerotheta": c["zerotheta"]}


UNIT = {"E": 1 / EUNIT, "B": 1 / BUNIT}


def unusable(rng):
    """a configuration that cannot be calculated"""
    c, typ = config(rng, True)
    w = rng.randrange(4)
    if w == 0:
        c, typ = config(rng, True)
        while not c["samebasis"]:
            c, typ = config(rng, True)
        c["species2"] = "Cs" if c["species1"] != "Cs" else "Rb"
    elif w == 1:
        c[rng.choice(["min", "max"]) + rng.choice(["Ey", "By"])] = rng.choice([1., -2.])
        typ = "real"
    elif w == 2:
        c["steps"] = 0
        c["maxBz"] = c["minBz"] + 5 * BUNIT
    else:
        c["steps"] = 0
        if "minR" in c and "species1" in c and "species2" in c and "m1" in c and "m2" in c:
            c["maxR"] = c["minR"] + RUNIT
        else:
            c["maxEz"] = c["minEz"] + 2 * EUNIT
    return c, typ


KINDS = ["deltaESingle", "deltaEPair", "diamagnetism", "exponent", "steps", "field", "field", "sametrafo", "missingCalc", "per",
         "species", "m", "type", "deltaNPair", "deltaLPair", "deltaJPair", "deltaMPair", "deltaLSingle", "deltaJSingle", "deltaMSingle",
         "R", "R", "swap", "samebasis", "conserveM", "inv", "zerotheta", "only", "deltaNSingle", "n", "l", "j", "ref", "ref"]


def telling(rng, kind=""):
    """a configuration in which all that is said matters: two atoms, close together, in strong fields of any direction, a wide basis"""
    sp = rng.choice(["Rb", "Cs"])
    same = rng.random() < 0.5
    n = rng.choice([30, 40])
    l, j, m = rng.choice([(0, 0.5, 0.5), (0, 0.5, -0.5), (1, 0.5, 0.5), (1, 1.5, -0.5)])
    c = {"species1": sp, "n1": n, "l1": l, "j1": j, "m1": m, "species2": sp, "n2": n, "l2": l, "j2": j, "m2": m,
         "samebasis": same, "deltaNSingle": int(kind == "deltaNPair" or kind in ("deltaNSingle", "deltaMPair") and rng.random() < 0.5), "deltaLSingle": 1, "deltaJSingle": -1, "deltaMSingle": -1, "deltaESingle": -1,
         "diamagnetism": True, "deltaEPair": -1, "deltaNPair": -1, "deltaLPair": -1, "deltaJPair": -1, "deltaMPair": -1,
         "conserveM": False, "exponent": 3, "steps": rng.choice([1, 2]), "missingCalc": True, "missingWhittaker": True,
         "sametrafo": False, "zerotheta": rng.random() < 0.5, "dd": True, "dq": False, "qq": False, "precision": 1e-12,
         "minR": 3., "maxR": 3.}
    for k in ("invE", "invO", "perE", "perO", "refE", "refO"):
        c[k] = False
    electric = rng.random() < 0.6
    d = max(c["steps"] - 1, 0)
    for k in ("Ex", "Ey", "Ez", "Bx", "By", "Bz"):
        u = 5 * EUNIT if k[0] == "E" else 40 * BUNIT
        lo = rng.choice([-2, -1, 1, 2]) if k[0] == "B" or electric else 0
        c["min" + k], c["max" + k] = lo * u, (lo + (d if lo else 0)) * u
    if c["deltaNSingle"]:
        c["deltaLSingle"] = 0
    return c, "complex"


def variant(rng, c, typ, kinds=KINDS):
    """almost the same configuration"""
    for _ in range(50):
        d, t = dict(c), typ
        k = rng.choice(kinds)
        F = ("Ex", "Ez", "Bx", "Bz") + (("Ey", "By") if t == "complex" else ())
        if k in ("diamagnetism", "sametrafo", "missingCalc", "samebasis", "conserveM", "zerotheta"):
            d[k] = not d[k]
        elif k in ("deltaESingle", "deltaEPair"):
            d[k] = rng.choice([5, 50, 100, 300])
        elif k == "exponent":
            d[k] = rng.choice([0, 3, 4, 5])
        elif k == "steps":
            d[k] = rng.choice([1, 2, 3, 4])
        elif k in ("deltaNPair", "deltaLPair", "deltaJPair", "deltaMPair"):
            d[k] = rng.choice([-1, 0, 0, 1])
        elif k in ("deltaLSingle", "deltaJSingle", "deltaMSingle"):
            d[k] = max(0, d[k] - 1) if d[k] >= 0 else rng.choice([0, 1])
        elif k == "deltaNSingle":
            d[k] = 1 - min(d[k], 1)
        elif k == "n":
            x = rng.choice(["1", "2", "12"])
            for y in x:
                if "n" + y in d:
                    d["n" + y] += 1
        elif k in ("l", "j"):
            x = rng.choice("12")
            if "j" + x in d:
                l, j = d["l" + x], d["j" + x]
                if k == "l":
                    d["l" + x] = round(2 * j - l)
                else:
                    d["j" + x] = abs(2 * l - j)
                if abs(d.get("m" + x, 0.5)) > d["j" + x]:
                    continue
        elif k == "field":
            f = rng.choice(F)
            d[rng.choice(["min", "max"] if d["steps"] > 1 else ["min"]) + f] += rng.choice([-1, 1, .125, 1e-5]) * (EUNIT if f[0] == "E" else BUNIT)
        elif k == "type":
            t = "real" if t == "complex" else "complex"
        elif k == "R" and "minR" in d:
            d[rng.choice(["minR", "maxR"] if d["steps"] > 1 else ["minR"])] += rng.choice([1., 1e-2, 1e-4])
        elif k == "only" and not d["samebasis"]:
            d = {x: y for x, y in d.items() if x not in ("species1", "n1", "l1", "j1", "m1")}
        elif k == "species":
            sp = rng.choice(["Rb", "Cs", "Li"])
            for x in ("species1", "species2") if d["samebasis"] else ("species2",):
                if x in d:
                    d[x] = sp
        elif k == "m":
            x = rng.choice("12")
            if "m" + x in d:
                d["m" + x] = -d["m" + x]
        elif k == "swap":
            for x in ("species", "n", "l", "j", "m"):
                if x + "1" in d and x + "2" in d:
                    d[x + "1"], d[x + "2"] = d[x + "2"], d[x + "1"]
        elif k == "per" and d["samebasis"]:
            d["perE"], d["perO"] = rng.choice([(False, False), (True, False), (False, True), (True, True)])
        elif k == "ref":
            d["refE"], d["refO"] = rng.choice([(False, False), (True, False), (False, True), (True, True)])
        elif k == "inv" and d["samebasis"] and all(d[m + x] == 0 for m in ("min", "max") for x in ("Ex", "Ey", "Ez")):
            d["invE"], d["invO"] = rng.choice([(False, False), (True, False), (False, True), (True, True)])
        if (d, t) == (c, typ) or not sensible(d, t):
            continue
        return d, t
    return dict(c), typ


def sensible(d, t):
    """can be calculated, and soon"""
    q = record(d, t)
    if q["same"] and not (q["a1"] and q["a2"] and q["sp1"] == q["sp2"]):
        return False
    if not q["a1"] and not q["a2"] or q["real"] and q["fy"]:
        return False
    if not q["same"] and (q["inve"] or q["invo"] or q["pere"] or q["pero"]):
        return False
    electric = any(x != 0 for m in ("min", "max") for x in (d[m + "Ex"], d[m + "Ey"], d[m + "Ez"]))
    if (d["refE"] or d["refO"]) and (d["deltaMSingle"] >= 0 or d["deltaMPair"] >= 0 or d["deltaESingle"] >= 0):
        return False
    transverse = any(d[m + x] != 0 for m in ("min", "max") for x in ("Ex", "Ey", "Bx", "By"))
    if (q["inve"] or q["invo"]) and electric or q["consm"] and transverse:
        return False
    est = (2 * d["deltaNSingle"] + 1) * (1 + 2 * d["deltaLSingle"]) * 6 * {0: .3, 1: .6}.get(d["deltaMSingle"], 1)
    return not (q["r"] and est * est > 1000)


# unit of distance of the simple matrix elements (harness/drv/fakeold.cpp), in um
CBRT = (5142206707.0 ** 2 * 5.2917721067e-05 ** 3 / 6579683.920757349) ** (1 / 3.)


def want(q, part):
    """number of states of an atom"""
    out = set()
    for s in ([q["s1"]] if part == 0 else [q["s2"]] if part == 1 else [q["s1"], q["s2"]]):
        for n in range(s[0] - q["dn"], s[0] + q["dn"] + 1):
            for l in range(0, n):
                if q["dl"] >= 0 and abs(l - s[1]) > q["dl"]:
                    continue
                for j in {1} if l == 0 else {2 * l - 1, 2 * l + 1}:
                    if q["dj"] >= 0 and abs(j - s[2]) > q["dj"]:
                        continue
                    out |= {(n, l, j, m) for m in range(-j, j + 1, 2) if q["dm"] < 0 or abs(m - s[3]) <= q["dm"]}
    return len(out)


def simple(rng, most, pairs):
    """a configuration of the engine with simple matrix elements"""
    while True:
        same = rng.random() < 0.5
        two = rng.random() < 0.65
        sp = rng.choice(["Rb", "Cs"])

        def state():
            l = rng.choice([0, 0, 1, 1, 2])
            j = abs(l + rng.choice([0.5, -0.5]))
            return 60 + rng.randint(-1, 1), l, j, rng.choice([x + 0.5 for x in range(int(-j - 0.5), int(j + 0.5))])
        a, b = state(), state()
        if rng.random() < 0.4:
            b = a
        steps = rng.choice([1, 1, 2, 3])
        c = {"species1": sp, "n1": a[0], "l1": a[1], "j1": a[2], "m1": a[3],
             "species2": sp if same else rng.choice(["Rb", "Cs"]), "n2": b[0], "l2": b[1], "j2": b[2], "m2": b[3],
             "samebasis": same, "deltaNSingle": rng.choice([0, 0, 1]), "deltaLSingle": rng.choice([0, 1, 1, 2, 3]),
             "deltaJSingle": rng.choice([-1, -1, 1]), "deltaMSingle": rng.choice([-1, 0, 1, 1]),
             "deltaESingle": rng.choice([-1, -1, -1, 11.5, 25.5, 40.5]), "diamagnetism": rng.random() < 0.7,
             "deltaEPair": -1, "deltaNPair": -1, "deltaLPair": -1, "deltaJPair": -1, "deltaMPair": -1,
             "conserveM": False, "exponent": rng.choice([0, 3, 3, 4, 5, 5]), "steps": steps,
             "missingCalc": True, "missingWhittaker": True, "sametrafo": rng.random() < 0.5, "zerotheta": rng.random() < 0.5,
             "dd": True, "dq": False, "qq": False, "precision": 1e-12}
        for k in ("invE", "invO", "perE", "perO", "refE", "refO"):
            c[k] = False
        typ = rng.choice(["real", "complex"])
        d = max(steps - 1, 1)
        fields = rng.random() < (0.6 if two else 0.95)
        for k in ("Ex", "Ey", "Ez", "Bx", "By", "Bz"):
            lo = hi = 0
            if fields and rng.random() < 0.55 and (k[1] != "y" or typ == "complex"):
                lo = rng.randint(-2, 2)
                hi = lo + (d * rng.choice([-1, 0, 1]) if steps > 1 else 0)
            c["min" + k], c["max" + k] = float(lo), float(hi)
        free = all(c[m + k] == 0 for m in ("min", "max") for k in ("Ex", "Ey", "Ez", "Bx", "By", "Bz"))
        lo = rng.choice([1, 2, 2])
        hi = lo + (d if steps > 1 and rng.random() < 0.6 else 0)
        if same and two:
            if rng.random() < 0.5:
                c["perE"], c["perO"] = rng.choice([(True, False), (False, True), (True, True)])
            if free and rng.random() < 0.5:
                c["invE"], c["invO"] = rng.choice([(True, False), (False, True), (True, True)])
        if free and two and rng.random() < 0.4:
            c["refE"], c["refO"] = rng.choice([(True, False), (False, True), (True, True)])
            c["deltaMSingle"] = -1
        if free and two:
            c["conserveM"] = rng.random() < 0.35
            c["deltaEPair"] = rng.choice([-1, 5.5, 20.5, 60.5])
            for k in "NLJM":
                c["delta%sPair" % k] = rng.choice([-1, -1, 0, 1])
            if c["refE"] or c["refO"]:
                c["deltaMPair"] = -1
        if two:
            c["minR"], c["maxR"] = float(lo), float(hi)
        q = record(c, typ)
        sizes = [want(q, 3)] if same else [want(q, 0), want(q, 1)]
        if max(sizes) > most or two and sizes[0] * sizes[-1] > pairs:
            continue
        q.update(dia=c["diamagnetism"], expo=c["exponent"], deltae=int(c["deltaESingle"] * 1000), deltapair=int(c["deltaEPair"] * 1000))
        F = ("Ex", "Ey", "Ez", "Bx", "By", "Bz")
        q["fmin"], q["fmax"] = [int(1000 * c["min" + k]) for k in F], [int(1000 * c["max" + k]) for k in F]
        if two:
            q["rmin"], q["rmax"] = 1000 * lo, 1000 * hi
            c["minR"], c["maxR"] = lo * CBRT, hi * CBRT
        return c, typ, q
