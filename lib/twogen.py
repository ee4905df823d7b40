"""Configurations for histories of two-atom systems (specs/Two.tla, harness/drv/two.cpp)."""
# families of geometries with integer lengths. U: the strength of the interaction in the driver's units;
# a tensor element of order L^-5 (L^-7) times U is (integer div pre) * mul / post
AX = [([0, 0, 1], 1), ([0, 0, -1], 1), ([1, 0, 0], 1), ([-1, 0, 0], 1), ([0, 1, 0], 1), ([0, -1, 0], 1)]
XZ = [([3, 0, 4], 5), ([4, 0, -3], 5), ([-3, 0, 4], 5), ([-4, 0, -3], 5)]
YZ = [([0, 3, 4], 5), ([0, -4, 3], 5), ([3, 4, 0], 5)]
V3 = [([1, 2, 2], 3), ([2, 1, -2], 3), ([-2, 2, 1], 3)]
FAMILIES = [
    {"U": 64, "L": 2, "mul": 2, "pre": 1, "post": 1, "pre7": 1, "post7": 2, "e5": 64,
     "rs": [1, 2], "dirs": AX, "angles": AX[:4], "ps": [2, 1, 4]},
    {"U": 100000, "L": 10, "mul": 1, "pre": 1, "post": 1, "pre7": 1, "post7": 100, "e5": 100000,
     "rs": [5, 10], "dirs": AX + XZ + YZ, "angles": AX[:4] + XZ, "ps": [10, 3, 8]},
    {"U": 30375, "L": 15, "mul": 1, "pre": 5, "post": 5, "pre7": 25, "post7": 225, "e5": 30375,
     "rs": [3, 3, 5, 15], "dirs": AX + XZ + V3, "angles": AX[:4] + XZ, "ps": [4, 5, 15, 1]},
]


def configuration(rng):
    cplx = rng.random() < 0.7
    fam = rng.choice(FAMILIES)
    levels = [(60, 0, 1), (60, 1, 1), (60, 1, 3), (61, 0, 1), (61, 2, 3), (60, 2, 5), (61, 1, 1), (60, 3, 5), (61, 1, 3)]
    rng.shuffle(levels)
    mix = rng.random() < 0.2  # two species
    same = not mix and rng.random() < 0.5
    pool = []

    def atom(size, species):
        out = []
        for n, l, j in levels:
            ms = list(range(-j, j + 1, 2))
            rng.shuffle(ms)
            for m in ms[:rng.randint(1, len(ms))]:
                if len(out) < size:
                    s = [n, l, j, m, species]
                    if s not in pool:
                        pool.append(s)
                    i = pool.index(s) + 1
                    if i not in out:
                        out.append(i)
        rng.shuffle(levels)
        return out
    a = atom(3 if not same else rng.choice([3, 4]), 0)
    b = a if same else atom(rng.choice([2, 3]), 1 if mix else 0)
    if rng.random() < 0.12:
        pool.append([-1, 0, 0, 0, 0])
        b = b + [len(pool)]
        same = False
    n = len(pool)

    def table(vals):
        return [[rng.choice(vals) for _ in range(n)] for _ in range(n)]
    T = {"E": table([-3, -2, 1, 2, 3]), "Q": table([1, -1]), "M": table([1, 2, -1]), "O": table([1, -1, 2])}
    ms = rng.random() < 0.2
    if same and rng.random() < 0.7:
        k = len(a)
        sys = [{"a": a, "b": a, "perm": 1, "nv": k * (k - 1) // 2}, {"a": a, "b": a, "perm": -1, "nv": k * (k + 1) // 2}]
        if rng.random() < 0.3:
            sys[1] = {"a": a, "b": a, "perm": 0, "nv": k * k}
    else:
        cut = rng.randint(1, len(b) - 1)
        sys = [{"a": a, "b": b[:cut], "perm": 0, "nv": len(a) * cut}, {"a": a, "b": b[cut:], "perm": 0, "nv": len(a) * (len(b) - cut)}]
        if rng.random() < 0.2:
            sys[0], sys[1] = sys[1], sys[0]
    for s in sys:
        s["ms"] = ms
    u = {k: fam[k] for k in ("U", "L", "mul", "pre", "post", "pre7", "post7", "e5")}
    return {"pool": pool, "T": T, "cplx": cplx, "sys": sys, "u": u,
            "rs": fam["rs"], "dirs": fam["dirs"], "angles": fam["angles"], "ps": fam["ps"]}


def request(rng):
    """A request for a two-atom basis (specs/TwoBasis.tla)."""
    kind = rng.choice(["plain", "plain", "plain", "half", "half", "mixed"])
    integer = rng.random() < 0.2
    sp = rng.choice([2, 3]) if integer else rng.choice([0, 0, 1])
    sp2 = sp
    levels = [(60, 0, 0), (60, 1, 2), (61, 0, 0), (61, 1, 2), (60, 2, 4), (60, 1, 4)] if integer else \
        [(60, 0, 1), (60, 1, 1), (60, 1, 3), (61, 0, 1), (60, 2, 3), (61, 1, 1), (60, 2, 5)]
    if integer and sp == 2:
        levels = [(60, 0, 0), (60, 1, 2), (61, 0, 0), (61, 1, 2), (60, 2, 4)]
        levels = [(n, l, 2 * l) for n, l, _ in levels]
    perm = inv = refl = 0
    rot = []
    if kind != "plain":
        perm = rng.choice([0, 0, 1, -1])
        inv = rng.choice([0, 0, 1, -1])
        refl = rng.choice([0, 0, 1, -1])
        if kind == "half" and not (perm or inv or refl):
            perm = rng.choice([1, -1])
    if rng.random() < 0.35 and not refl:
        rot = sorted(rng.sample([-2, -1, 0, 1, 2], rng.randint(1, 2)))
    same = bool(perm or inv) or rng.random() < 0.3
    pool = []

    def atom(size, species, sym):
        rng.shuffle(levels)
        out = []
        for n, l, j in levels:
            ms = list(range(-j, j + 1, 2))
            rng.shuffle(ms)
            for m in ms[:rng.randint(1, len(ms))]:
                for mm in ([m, -m] if sym or rng.random() < 0.5 else [m]):
                    s = [n, l, j, mm, species]
                    if len(out) < size + (1 if sym and mm == -m else 0):
                        if s not in pool:
                            pool.append(s)
                        if pool.index(s) + 1 not in out:
                            out.append(pool.index(s) + 1)
        if sym:
            out = [i for i in out if [*pool[i - 1][:3], -pool[i - 1][3], species] in [pool[k - 1] for k in out]]
        return out
    field = 0 if refl else rng.choice([0, 0, 1, 2, 3])
    if inv or rot:
        field = min(field, 1)
    zero = [0, 0, 0]
    e, b = [(zero, zero), (zero, [0, 0, rng.choice([1, 2])]), ([0, 0, rng.choice([1, 2])], zero),
            ([1, 0, rng.choice([0, 1])], [0, 0, 1])][field]

    def kinds():
        if not refl:
            return "plain"
        return rng.choice(["both", "both", "even", "odd"])
    one = {"ids": atom(rng.choice([3, 4, 5]), sp, bool(refl)), "species": sp, "kind": kinds(), "e": e, "b": b}
    label = not inv and not refl and not (e != zero or b != zero) and rng.random() < 0.12
    if label:
        pool.append([-1, 0, 0, 0, 0])
        one["ids"].append(len(pool))
    if same:
        two = dict(one)
    else:
        if not integer and not rot and not refl and rng.random() < 0.3:
            sp2 = 1 - sp
        two = {"ids": atom(rng.choice([2, 3, 4]), sp2, bool(refl)), "species": sp2, "kind": kinds(), "e": e, "b": b}
    if refl and rng.random() < 0.3 and rot == [] and not integer:
        k = rng.choice([0, 1, 2])
        rot = []  # a symmetrised vector has no definite momentum
    # incompatible requests: reflection with momenta that lack their negatives
    rotfirst = rng.random() < 0.5
    if refl and rng.random() < 0.15:
        rot = rng.choice([[1], [2, -1], [0, 1]])
        rotfirst = rng.random() < 0.3
        if rotfirst:
            one["kind"] = two["kind"] = "plain"
            if same:
                two = dict(one)

    def some(vals, p):
        return sorted(rng.sample(vals, rng.randint(1, len(vals)))) if rng.random() < p else []
    # (a restriction must not cut through vectors)
    clean = e == zero and b == zero
    ns = some([60, 61], 0.1) if clean else []
    ls = some([0, 1, 2], 0.12) if clean else []
    js = some(sorted({lv[2] for lv in levels}), 0.12) if clean else []
    m = []
    if rng.random() < 0.2 and (clean or field == 1):
        m = some(list(range(-5 + integer, 6, 2)), 1)
        if refl or one["kind"] != "plain":
            m = sorted(set(m) | {-x for x in m})
    en = [9999, 9999]
    if rng.random() < 0.35:
        mid = rng.randint(6, 26)
        en = [mid - rng.randint(4, 16), mid + rng.randint(4, 16)]
        if rng.random() < 0.3:
            en[rng.randrange(2)] = 9999
    pairs = []
    if rng.random() < 0.25:
        n = rng.randint(1, 5)
        top = rng.choice([1, 2, 2, 2, 3])
        pairs = [[rng.randint(0, top), rng.randint(0, top)] for _ in range(n)]
        if rng.random() < 0.9:
            pairs = [p for i, p in enumerate(pairs) if p not in pairs[:i]]
        if perm or inv:
            pairs += [p[::-1] for p in pairs if p[::-1] not in pairs]
    add = []
    if not refl and rng.random() < 0.3:
        before = len(pool)
        for n, l, j in rng.sample(levels, 2):
            s = [n + 1, l, j, rng.choice(range(-j, j + 1, 2)), rng.choice([sp] * 8 + [0, 1]) if not integer else sp]
            if s not in pool:
                pool.append(s)
        ids = [i + 1 for i in range(len(pool)) if rng.random() < 0.15 or i >= before]
        for _ in range(rng.randint(1, 3)):
            p = [rng.choice(ids), rng.choice(ids)] if ids else None
            if p and p not in add:
                add.append(p)
        if (perm or inv) and rng.random() < 0.9:
            add += [p[::-1] for p in add if p[::-1] not in add]
        if inv:
            add = [p for p in add if all(pool[i - 1][0] > 0 for i in p)]
    n = len(pool)

    def table(vals):
        return [[rng.choice(vals) for _ in range(n)] for _ in range(n)]
    T = {"E": table([-1, 1, 2]), "B": table([-2, -1, 1, 2]), "D0": table([1, -1]), "D2": table([1, -1])}
    return {"pool": pool, "T": T, "one": one, "two": two, "same": same, "n": ns, "l": ls, "j": js, "m": m, "en": en,
            "perm": perm, "inv": inv, "refl": refl, "rot": rot, "rotfirst": rotfirst, "pairs": pairs, "add": add,
            "late": rng.random() < 0.3, "ms": rng.random() < 0.1, "way": rng.choice(["", "", "", "copy", "save"]),
            "cplx": bool(refl) or rng.random() < 0.5}
