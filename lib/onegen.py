"""Configurations for histories of one-atom systems (specs/One.tla, harness/drv/one.cpp)."""


def configuration(rng):
    cplx = rng.random() < 0.65
    levels = [(60, 0, 1), (60, 1, 1), (60, 1, 3), (61, 0, 1), (61, 2, 3), (60, 2, 5), (61, 1, 1), (61, 1, 3)]
    rng.shuffle(levels)
    pool = []
    refl = cplx and rng.random() < 0.35
    size = rng.randint(4, 7)
    for n, l, j in levels:
        ms = list(range(-j, j + 1, 2))
        rng.shuffle(ms)
        for m in ms[:rng.randint(1, len(ms))]:
            for mm in ([m, -m] if refl or rng.random() < 0.5 else [m]):
                s = [n, l, j, mm]
                if s not in pool and len(pool) < size + (1 if refl and mm == -m else 0):
                    pool.append(s)
    if refl:
        pool = [s for s in pool if [s[0], s[1], s[2], -s[3]] in pool]
    if rng.random() < 0.2 and not refl:
        pool[-1] = [-1, 0, 0, 0]
    n = len(pool)

    def table(vals):
        return [[rng.choice(vals) for _ in range(n)] for _ in range(n)]

    T = {"E": table([-3, -2, 1, 2, 3, 4]), "B": table([-2, -1, 1, 2, 3]), "D0": table([1, 2, -1]), "D2": table([1, -1, 2]),
         "I1": table([1, -1]), "I2": table([1, -1, 2]), "I3": table([1, 2, -1])}
    ids = list(range(1, n + 1))
    if refl:
        first = [i for i in ids if pool[i - 1][3] != 0]
        second = first
        ab = [1, -1] if rng.random() < 0.7 else [1, 1]
        if rng.random() < 0.5:
            k = [[s[0], s[1], s[2]] for s in pool]
            cut = k[0]
            first = [i for i in ids if k[i - 1] == cut]
            second = [i for i in ids if k[i - 1] != cut] or first
        sys = [{"st": first, "refl": ab[0], "nv": len(first) // 2}, {"st": second, "refl": ab[1], "nv": len(second) // 2}]
        if sys[0]["st"] == sys[1]["st"] and ab[0] == ab[1]:
            sys[1]["refl"] = -ab[0]
    else:
        rng.shuffle(ids)
        cut = rng.randint(max(1, n - 3), n - 1)
        sys = [{"st": ids[:cut], "refl": 0, "nv": cut}, {"st": ids[cut:], "refl": 0, "nv": n - cut}]
    ms = rng.random() < 0.2
    for s in sys:
        s["ms"] = ms
    return {"pool": pool, "T": T, "cplx": cplx, "sys": sys}


def request(rng):
    """A request for a one-atom basis (specs/OneBasis.tla)."""
    species, s2 = rng.choice([("Rb", 1), ("Rb", 1), ("Rb", 1), ("Sr1", 0), ("Sr3", 2)])
    par = s2 % 2

    def some(vals, p):
        return sorted(rng.sample(vals, rng.randint(1, min(len(vals), 3)))) if rng.random() < p else []
    small = rng.random() < 0.4
    n = rng.choice([[2], [3], [1, 2], [1, 2, 3]]) if small else some([59, 60, 61], 0.92)
    l = some([0, 1, 2, 3], 0.3) if small else some([0, 1, 2, 59], 1)
    if rng.random() < 0.05:
        l = l + [rng.choice([5, 70])]
    js = [j for j in range(par, 8, 2)]
    j = some(js, 0.5)
    if rng.random() < 0.1:
        j = sorted(set(j + [rng.choice(range(0, 6))]))
    ms = [m for m in range(-5, 6) if m % 2 == par]
    r = rng.random()
    if r < 0.35:
        m = []
    elif r < 0.75:
        k = rng.sample([x for x in ms if x >= 0], rng.randint(1, 3))
        m = sorted(set(k + [-x for x in k]))
    else:
        m = sorted(rng.sample(ms, rng.randint(1, 4)))
    if rng.random() < 0.06:
        m = sorted(set(m + [rng.choice(range(-3, 4))]))
    # levels l = 59 have very many m
    if any(x > 5 for x in l) and not m:
        m = [-1, 1] if par else [0]
    base = 10 * ((n or [60])[0] - 60)
    en = [99, 99]
    if rng.random() < 0.4:
        a = base + rng.randint(-3, 8)
        en = rng.choice([[a, a + rng.randint(1, 14)], [a, 99], [99, a + 6]])
    refl = rng.choice([0, 0, 1, -1])
    rot = []
    r = rng.random()
    if r < 0.25:
        k = rng.sample([x for x in ms if x >= 0], rng.randint(1, 2))
        rot = sorted(set(k + [-x for x in k]))
    elif r < 0.35:
        rot = sorted(rng.sample(ms, rng.randint(1, 3)))
    add = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        ll = rng.randint(0, 3)
        jj = rng.choice([x for x in range(abs(2 * ll - s2), 2 * ll + s2 + 1, 2)])
        mm = rng.choice(range(-jj, jj + 1, 2))
        s = [rng.choice([58, 60, 62]), ll, jj, mm]
        add.append(s)
        if mm and rng.random() < 0.8:
            add.append(s[:3] + [-mm])
    if rng.random() < 0.08:
        add.append([-rng.randint(1, 2), 0, 0, 0])
    if rng.random() < 0.04:
        add.append([60, 0, 1, 1, "Cs"])
    add = [a for i, a in enumerate(add) if a not in add[:i]]
    return {"species": species, "s2": s2, "n": n, "l": sorted(set(l)), "j": j, "m": m, "en": en, "add": add, "refl": refl, "rot": rot, "rotfirst": rng.random() < 0.4,
            "cplx": rng.random() < (0.75 if refl else 0.5)}
