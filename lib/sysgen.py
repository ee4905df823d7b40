"""Configurations for the histories of the lazily built system (specs/Sys.tla, harness/drv/sys.cpp)."""


def configuration(rng):
    cplx = rng.random() < 0.5
    lo = [(0, 1), (1, 1), (1, 3)]
    kinds = [(n, l, j, m) for n in (60, 61) for (l, j) in lo for m in range(-j, j + 1, 2)]
    rng.shuffle(kinds)
    pool = [list(k) for k in kinds[:rng.randint(4, 6)]]
    # partners under reflection
    for k in list(pool):
        r = [k[0], k[1], k[2], -k[3]]
        if len(pool) < 7 and r not in pool and rng.random() < 0.5:
            pool.append(r)
    if rng.random() < 0.4:
        pool.append([-1, 0, 1, 1])
    rng.shuffle(pool)
    ids = list(range(1, len(pool) + 1))

    def num(z=False):
        re = rng.choice([-2, -1, 1, 1, 2, 3])
        im = rng.choice([0, 0, 1, -1, 2]) if cplx else 0
        return [re, im]

    def system(mine, ms):
        vecs = []
        q = list(mine)
        while q:
            if len(q) >= 2 and rng.random() < 0.4:
                a, b = q.pop(), q.pop()
                if cplx and rng.random() < 0.5:
                    vecs += [[[a, 1, 0], [b, 0, 1]], [[a, 0, 1], [b, 1, 0]]]
                elif rng.random() < 0.8:
                    vecs += [[[a, 1, 0], [b, 1, 0]], [[a, 1, 0], [b, -1, 0]]]
                else:
                    vecs += [[[a, 2, 0], [b, 1, 0]]]
            else:
                a = q.pop()
                vecs.append([[a, 1, 0]] if rng.random() < 0.8 else [[a, -1, 0]])
        rng.shuffle(vecs)
        en = [rng.randint(-5, 6) for _ in vecs]
        off = []
        for i in range(1, len(vecs) + 1):
            for k in range(i + 1, len(vecs) + 1):
                if rng.random() < 0.12:
                    v = num()
                    off += [[i, k] + v, [k, i, v[0], -v[1]]]
        return {"vecs": vecs, "en": en, "off": off, "ms": ms}

    def operator(p):
        t = []
        for a in ids:
            for b in ids:
                if a < b and rng.random() < p:
                    v = num()
                    t += [[a, b] + v, [b, a, v[0], -v[1]]]
                elif a == b and rng.random() < p / 2:
                    t.append([a, a, rng.choice([-1, 1, 2]), 0])
        return t

    perm = ids[:]
    rng.shuffle(perm)
    cut = rng.randint(2, len(perm) - 1)
    first = perm[:cut]
    second = perm[cut:] if rng.random() < 0.7 else rng.sample(ids, rng.randint(1, len(ids)))
    ms = rng.random() < 0.2
    return {"pool": pool, "sys": [system(first, ms), system(second, ms if rng.random() < 0.8 else not ms)],
            "V": operator(0.3), "W": operator(0.15), "cplx": cplx}
