"""Inputs for the rotation drivers (specs/Rot.tla, harness/drv/rot.cpp, rotphys.cpp)."""
FAMILY = [[1, 0], [0, 1], [1, 1], [1, -1], [-1, 0], [4, 3], [3, 4], [-3, 4], [4, -3], [3, -4], [-4, 3], [-1, 1], [0, -1]]
HALF = [(60, 0, 1), (60, 1, 1), (60, 1, 3), (61, 0, 1), (60, 2, 3), (60, 2, 5), (60, 3, 7)]
WHOLE = [(60, 0, 0), (60, 1, 2), (61, 0, 0), (60, 2, 4), (61, 1, 2)]


def manifolds(rng, size, integer, species, pool, levels=None):
    levels = list(levels or (WHOLE if integer else HALF))
    rng.shuffle(levels)
    out = []
    for n, l, j in levels:
        if len(out) + j + 1 <= size:
            for m in rng.sample(range(-j, j + 1, 2), j + 1):
                s = [n, l, j, m, species]
                if s not in pool:
                    pool.append(s)
                out.append(pool.index(s) + 1)
    rng.shuffle(out)
    return out


def table(rng, n, vals):
    return [[rng.choice(vals) for _ in range(n)] for _ in range(n)]


def tables(rng, n):
    return {"E": table(rng, n, [-2, -1, 1, 2]), "B": table(rng, n, [-2, -1, 1, 2]), "D0": table(rng, n, [1, -1]), "D2": table(rng, n, [1, -1])}


def configuration(rng):
    integer = rng.random() < 0.3
    species = "Sr1" if integer else rng.choice(["Rb", "Cs"])
    pool = []
    st = manifolds(rng, rng.choice([4, 6, 8, 8]), integer, species, pool)
    return {"pool": pool, "st": st, "T": tables(rng, len(pool)), "cplx": rng.random() < 0.7, "species": species}


def angles(rng, real=False):
    return [rng.choice([[1, 0], [1, 0], [-1, 0]]) if real else rng.choice(FAMILY), rng.choice(FAMILY),
            rng.choice([[1, 0], [1, 0], [-1, 0]]) if real else rng.choice(FAMILY)]


def wigner(rng):
    jj = rng.randint(0, 7)
    return {"k": "wigner", "jj": jj, "p": rng.choice(range(-jj, jj + 1, 2)), "m": rng.choice(range(-jj, jj + 1, 2)), "t": angles(rng)}


def axes(rng):
    def v():
        return [rng.randint(-7, 7) for _ in range(3)]
    def cross(a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    while True:
        z, y = v(), v()
        if rng.random() < 0.75:
            y = cross(z, y)
        if any(z) and any(y):
            pool = []
            return {"k": "axes", "z": z, "y": y, "st": manifolds(rng, 4, False, "Rb", pool), "pool": pool}


def turns(rng):
    pool = []
    def n():
        return rng.choice([0, 4, -4, 8, 12, -28, 44, -52, 92, 332, -1004]) + rng.choice([0, 0, 0, 0, 0, 0, 1, 2, 3])
    return {"k": "turns", "a": n(), "g": n(), "b": rng.choice(FAMILY), "st": manifolds(rng, 6, False, "Rb", pool), "pool": pool}


def large(rng, jj=None):
    return {"k": "table", "jj": jj or rng.randint(4, 16), "a": rng.choice(FAMILY), "c": rng.choice(FAMILY)}


def pair(rng):
    integer = rng.random() < 0.3
    cplx = rng.random() < 0.6
    pool = []
    sp = ["Sr1", "Sr1"] if integer else rng.choice([["Rb", "Rb"], ["Rb", "Cs"]])
    one = manifolds(rng, 4, integer, sp[0], pool)
    perm = 0
    if sp[0] == sp[1] and rng.random() < 0.4:
        two, perm = one, rng.choice([1, -1])
    else:
        two = manifolds(rng, rng.choice([2, 4]) if not integer else rng.choice([1, 3, 4]), integer, sp[1], pool)
    return {"k": "pair", "pool": pool, "one": one, "two": two, "species": sp, "perm": perm, "b": rng.choice([0, 1, 2]),
            "T": tables(rng, len(pool)), "cplx": cplx, "t": angles(rng, not cplx)}


def physical(rng):
    pool = []
    if rng.random() < 0.55:
        one = manifolds(rng, rng.choice([6, 8, 10]), False, "Rb", pool)
        def f():
            return [rng.choice([0, 1, -1, 2]) for _ in range(3)]
        e, b = f(), f()
        if rng.random() < 0.5:
            e, b = rng.choice([(e, [0, 0, 0]), ([0, 0, 0], b)])
        return {"k": "one", "pool": pool, "one": one, "e": e, "b": [100 * x for x in b], "dia": rng.random() < 0.6, "t": angles(rng)}
    lv = rng.choice([[(60, 0, 1), (60, 1, 1)], [(60, 0, 1), (60, 1, 3)], [(60, 1, 1), (60, 2, 3)], [(60, 0, 1), (60, 2, 3)], [(60, 0, 1), (60, 2, 5)]])
    one = manifolds(rng, 8, False, "Rb", pool, lv)
    two = manifolds(rng, 8, False, "Rb", pool, lv) if rng.random() < 0.3 else \
        manifolds(rng, 6, False, "Rb", pool, rng.choice([lv, [(60, 0, 1), (61, 1, 1)], [(61, 0, 1), (61, 1, 1)]]))
    r = rng.choice([[0, 0, 5], [3, 0, 4], [0, 0, -6], [5, 0, 0], [0, 4, 0], [1, 2, 2], [-3, 4, 0]])
    gt = rng.random() < 0.6
    if not gt:
        r = rng.choice([[0, 0, 5], [3, 0, 4], [4, 0, -3]])
    return {"k": "two", "pool": pool, "one": one, "two": two, "r": r, "order": rng.choice([3, 3, 4]) if gt else 3, "gt": gt, "t": angles(rng)}
