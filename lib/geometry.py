"""Geometries with integer lengths for the Green tensor (specs/Green.tla)."""
import math


def root(n):
    r = math.isqrt(n)
    return r if r * r == n else 0


def green(size=9, top=1.5e9):
    out = []
    for x in range(-size, size + 1):
        for y in range(-size, size + 1):
            for z in range(-size, size + 1):
                r = root(x * x + y * y + z * z)
                if not r or r > 15:
                    continue
                fits = lambda L: all(24 * (L // q) ** 7 * q ** 3 < top / 2 for q in {r}) and L ** 7 < top
                plates, L = [], r
                if y == 0:
                    for p in range(max(1, abs(z)), 16):
                        rp = root(x * x + p * p)
                        if rp and fits(math.lcm(L, rp)) and 24 * (math.lcm(L, rp) // rp) ** 7 * rp ** 3 < top / 2:
                            if all(24 * (math.lcm(L, rp) // q) ** 7 * q ** 3 < top / 2
                                   for q in [root(x * x + o * o) for o in plates]):
                                L = math.lcm(L, rp)
                                plates.append(p)
                bad = [p for p in range(1, abs(z))] if y == 0 else [1, 2, 5]
                if fits(L) and (plates or bad or True):
                    out.append({"v": [x, y, z], "L": L, "plates": plates, "bad": (bad or plates or [1])})
    # a plate that is not in the list has no exact tensor: without bad ones only use those of the list
    return [g for g in out if g["plates"] or g["v"][1] or g["v"][2] not in (-1, 0, 1)]
