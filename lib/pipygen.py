"""Histories of calculations for the Python back end."""
import copy

MICRO = 1 << 20          # distances are multiples of this part of a micrometre


def spin(sp):
    return {"Sr1": 0, "Sr3": 2}.get(sp, 1)


def state(rng, sp, m=None):
    n = rng.randint(5, 7)
    l = rng.randint(0, 2)
    s = spin(sp)
    j = rng.choice(range(abs(2 * l - s), 2 * l + s + 1, 2))
    return [n, l, j, rng.choice(range(-j, j + 1, 2))]


def fields(rng, p):
    """fields and distance, integers at every step"""
    n = p["steps"]
    def span(lo, varied):
        return lo + (n - 1) * rng.choice([1, 2, -1]) if varied else lo
    y = rng.random() < .3
    for f in "EB":
        lo = [rng.choice([0, 0, rng.randint(-4, 4)]) for _ in range(3)]
        if not y:
            lo[1] = 0
        vary = rng.random() < .55
        p["min" + f] = lo
        p["max" + f] = [span(x, vary and rng.random() < .6 and (k != 1 or y)) for k, x in enumerate(lo)]
    p["minR"] = rng.randint(5, 9) * MICRO
    p["maxR"] = p["minR"] + (n - 1) * rng.choice([0, 1, 2, MICRO, 3 * MICRO])


def params(rng):
    p = {"bid": rng.choice([0, 1, 2, 2, 2, 3])}
    p["same"] = p["bid"] == 3 or (p["bid"] == 2 and rng.random() < .5)
    sps = ["Rb", "Rb", "Cs", "Sr3", "Sr1"]
    p["sp1"] = rng.choice(sps)
    p["sp2"] = p["sp1"] if p["same"] or p["sp1"].startswith("Sr") else rng.choice(sps[:3])
    p["q1"] = state(rng, p["sp1"])
    p["q2"] = list(p["q1"]) if rng.random() < .3 and p["sp1"] == p["sp2"] else state(rng, p["sp2"])
    p["dN"] = rng.choice([0, 0, 1])
    p["dL"] = rng.choice([-1, 0, 1, 1])
    p["dJ"] = rng.choice([-1, -1, 0, 1])
    p["dM"] = rng.choice([-1, -1, 0, 1])
    p["dE"] = rng.choice([-1, 20, 60])
    p["dEP"] = rng.choice([-1, 10, 40])
    p["meth"] = rng.randint(0, 1)
    p["dia"] = rng.random() < .4
    p["order"] = rng.choice([3, 3, 4, 5])
    p["zero"] = rng.random() < .6
    p["consM"] = rng.random() < .5
    p["samet"] = rng.random() < .5
    for s in ("inv", "per", "ref"):
        p[s] = rng.choice([[], [], ["O"], ["E"], ["O", "E"]])
    p["steps"] = rng.choice([1, 2, 3, 4, 5])
    fields(rng, p)
    return p


def near(rng, p):
    """a calculation that differs in few things from an earlier one"""
    p = copy.deepcopy(p)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["q1", "q1", "q2", "q", "d", "d", "dE", "meth", "dia", "order", "fields", "steps", "bid", "sym", "flags", "sp", "same"])
        if k in ("q1", "q2"):
            p[k] = state(rng, p["sp" + k[1]])
        elif k == "q":
            p["q1"], p["q2"] = (state(rng, p["sp1"]), state(rng, p["sp2"]))
        elif k == "d":
            p[rng.choice(["dL", "dJ", "dM"])] = rng.choice([-1, 0, 1])
        elif k == "dE":
            p[rng.choice(["dE", "dEP"])] = rng.choice([-1, 10, 20, 40, 60])
        elif k == "meth":
            p["meth"] = 1 - p["meth"]
        elif k == "dia":
            p["dia"] = not p["dia"]
        elif k == "order":
            p["order"] = rng.choice([3, 4, 5])
        elif k in ("fields", "steps"):
            if k == "steps":
                p["steps"] = rng.choice([1, 2, 3, 4, 5])
            fields(rng, p)
        elif k == "bid":
            if p["bid"] in (0, 1):
                p["bid"] = 1 - p["bid"]
        elif k == "sym":
            p[rng.choice(["inv", "per", "ref"])] = rng.choice([[], ["O"], ["E"], ["O", "E"]])
        elif k == "flags":
            x = rng.choice(["zero", "consM", "samet"])
            p[x] = not p[x]
        elif k == "same" and p["bid"] == 2:
            p["same"] = not p["same"] and p["sp1"] == p["sp2"]
        elif k == "sp" and not p["sp1"].startswith("Sr"):
            p["sp1"] = rng.choice(["Rb", "Cs"])
            if p["same"]:
                p["sp2"] = p["sp1"]
    return p


def usable(p):
    """the back end asks for a restriction from which the momenta follow"""
    return p["bid"] != 2 or not p["consM"] or p["samet"] or max(p["dL"], p["dJ"], p["dM"]) >= 0


def orbits(p, i):
    """rough number of states of atom i"""
    qs = [p["q1"], p["q2"]] if p["same"] else [p["q%d" % i]]
    lo, hi = min(q[0] for q in qs), max(q[0] for q in qs)
    n = hi - lo + 1 + 2 * p["dN"]
    sp, k = p["sp%d" % i], 0
    s = spin(sp)
    for l in range(3):
        if p["dL"] >= 0 and not min(q[1] for q in qs) - p["dL"] <= l <= max(q[1] for q in qs) + p["dL"]:
            continue
        for j in range(abs(2 * l - s), 2 * l + s + 1, 2):
            if p["dJ"] >= 0 and not min(q[2] for q in qs) - 2 * p["dJ"] <= j <= max(q[2] for q in qs) + 2 * p["dJ"]:
                continue
            for m in range(-j, j + 1, 2):
                if p["dM"] < 0 or min(q[3] for q in qs) - 2 * p["dM"] <= m <= max(q[3] for q in qs) + 2 * p["dM"]:
                    k += 1
    return n * k


def small(p):
    if p["bid"] != 2:
        return True
    return orbits(p, 1) * orbits(p, 1 if p["same"] else 2) <= 2500


def pick(rng, f):
    while True:
        p = f()
        if usable(p) and small(p):
            return p


def real(p):
    """the parameters as the interface hands them over"""
    par = {"button_id": p["bid"], "steps": p["steps"], "missingCalc": p["meth"], "missingWhittaker": 1, "precision": 1e-12,
           "diamagnetism": p["dia"], "samebasis": p["same"], "deltaNSingle": p["dN"], "deltaLSingle": p["dL"], "deltaJSingle": p["dJ"],
           "deltaMSingle": p["dM"], "deltaESingle": float(p["dE"])}
    for i in (1, 2):
        if p["bid"] in (i - 1, 2, 3):
            q = p["q%d" % i]
            par.update({"species%d" % i: p["sp%d" % i], "n%d" % i: q[0], "l%d" % i: q[1], "j%d" % i: q[2] / 2, "m%d" % i: q[3] / 2})
    for mm in ("min", "max"):
        for f in "EB":
            par.update({mm + f + x: float(p[mm + f][k]) for k, x in enumerate("xyz")})
    if p["bid"] == 2:
        par.update({"deltaNPair": -1, "deltaLPair": -1, "deltaJPair": -1, "deltaMPair": -1, "deltaEPair": float(p["dEP"]),
                    "exponent": p["order"], "zerotheta": p["zero"], "conserveM": p["consM"], "sametrafo": p["samet"],
                    "minR": p["minR"] / MICRO, "maxR": p["maxR"] / MICRO, "dd": p["order"] == 3, "dq": p["order"] != 3, "qq": p["order"] != 3})
        for s in ("inv", "per", "ref"):
            par.update({s + eo: eo in p[s] for eo in "OE"})
    return par


def history(rng, length):
    p = pick(rng, lambda: params(rng))
    out = []
    for k in range(length):
        if k:
            old = rng.choice(out)["p"]
            p = rng.choice([lambda: old, lambda: pick(rng, lambda: near(rng, old)), lambda: pick(rng, lambda: near(rng, old)),
                            lambda: pick(rng, lambda: params(rng))])()
        c = {"p": p, "par": real(p), "procs": rng.choice([1, 1, 1, 2, 3]), "jitter": rng.choice([0, 0, 0.003])}
        if rng.random() < .25:
            c["kill"] = [rng.randint(0, 12), rng.random() < .5]
        out.append(c)
        if "kill" in c:   # and once more, undisturbed
            out.append({k: v for k, v in c.items() if k != "kill"})
    return {"pass": rng.choice(["direct&delete"] * 5 + ["direct", "path&delete"]), "calcs": out}
