"""Histories for the helpers of the interface's plots."""

ANGLES = [((0, 1), 6), ((1, 0), 6), ((1, 1), 8), ((-1, 1), 8), ((1, 2), 6), ((-1, 3), 6), ((3, 1), 6), ((-2, 1), 6), ((2, 3), 5), ((1, -1), 8),
          ((100, 101), 3), ((101, 102), 3), ((-101, 102), 3), ((1000, 1001), 2), ((1001, 1002), 2), ((10000, 10001), 2), ((10001, 10002), 2), ((1, 1000), 2), ((-1, 1000), 2)]


def query(rng):
    (p, q), top = rng.choice(ANGLES)
    j = rng.randint(0, top)
    return {"j": j, "a": rng.randrange(-j, j + 1, 2), "b": rng.randrange(-j, j + 1, 2), "p": p, "q": q}


def history(rng, h):
    out, live = [{"o": "Start", "h": h}], []
    old = []
    n = 0
    for _ in range(rng.randint(15, 50)):
        k = rng.choice(["Open"] + ["Elem"] * 12 + ["Save", "Close", "Lost", "Killed"])
        if k == "Open" or (k != "Killed" and not live):
            n += 1
            live.append(n)
            out.append({"o": "Open", "w": n})
        elif k == "Elem":
            q = query(rng)
            if old and rng.random() < .5:
                q = dict(rng.choice(old))
                if rng.random() < .2 and q["p"] > 99:
                    q["p"], q["q"] = rng.choice([a[0] for a in ANGLES if a[0][0] > 99 and abs(a[0][0] - q["p"]) < 2])
                elif rng.random() < .7:       # the same up to symmetry
                    s, t = rng.choice([(1, 0), (-1, 0), (1, 1), (-1, 1)])
                    a, b = s * q["a"], s * q["b"]
                    q.update(a=b if t else a, b=a if t else b)
                    if rng.random() < .3:
                        q["p"], q["q"] = -q["p"], q["q"]
            old.append(q)
            out.append({"o": k, "w": rng.choice(live), "q": q})
        elif k == "Killed":
            out.append({"o": k, "qs": [query(rng) for _ in range(2)] + [dict(rng.choice(old)) for _ in range(2) if old],
                        "after": rng.randint(0, 2), "half": rng.random() < .6})
        else:
            w = rng.choice(live)
            if k != "Save":
                live.remove(w)
            out.append({"o": k, "w": w})
    return out


def matrices(rng, n):
    out = []

    def dense(r, c, top=4):
        p = rng.choice([0, .2, .5, .9])
        return [[rng.randint(1, top) if rng.random() < p else 0 for _ in range(c)] for _ in range(r)]

    for _ in range(n):
        k = rng.choice(["Below", "Beside", "Keep", "Image"])
        r, c, s = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)
        if k == "Keep":
            out.append({"o": k, "a": dense(r, c), "z": rng.random() < .2, "n": [r, c]})
        elif k == "Image":
            lo, wide = rng.randint(-20, 20), rng.random() < .7
            x = [lo + rng.choice([0, 1, rng.randint(0, 300)] if wide else [0, 1]) for _ in range(r * c)]
            give = [g for g in ("cmin", "cmax", "low", "high") if rng.random() < .4]
            low = rng.choice([0, 3, 10]) if "low" in give else 0
            high = low + rng.choice([1, 20, 200]) if "high" in give else 255
            out.append({"o": k, "x": x, "give": give, "lo": min(x) - rng.randint(0, 9) if "cmin" in give else min(x),
                        "hi": max(x) + rng.randint(0, 9) if "cmax" in give else max(x), "low": low, "high": high,
                        "shape": [r, c] if rng.random() < .4 else []})
        else:
            na, nb = ([r, c], [s, c]) if k == "Below" else ([r, c], [r, s])
            out.append({"o": k, "a": dense(*na, 9), "b": dense(*nb, 9), "na": na, "nb": nb, "ca": rng.random() < .2, "cb": rng.random() < .2,
                        "z": rng.random() < .2})
    return out
