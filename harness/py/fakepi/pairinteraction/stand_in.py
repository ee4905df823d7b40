"""Stand-in for the compiled library: systems record how they were defined and have energies that tell
states and fields apart. Vectors of a diagonalized system hold the definition."""
import copy
import json
import os
import random
import time

import numpy as np
from scipy.sparse import csc_matrix, diags

WHITTAKER, NUMEROV = "WHITTAKER", "NUMEROV"
ODD, EVEN, NA = "O", "E", ""
ARB = 32767
MICRO = 1 << 20          # distances are multiples of this part of a micrometre


def spin2(sp):
    return {"Sr1": 0, "Sr3": 2}.get(sp, 1)


def twice(x):
    assert float(2 * x).is_integer(), x
    return int(2 * x)


def whole(x):
    assert abs(float(x) - round(float(x))) < 1e-9, x
    return int(round(float(x)))


def level(sp, n, l, j2):
    return 16 * n + (7 if sp == "Cs" else 5) * l + j2


def shift(E, B):
    return E[0] + 2 * E[1] + 3 * E[2] + 5 * B[0] + 7 * B[1] + 9 * B[2]


class MatrixElementCache:
    def __init__(self, path=None):
        assert path is None or os.path.isdir(path)
        self.method = None

    def setMethod(self, m):
        self.method = m

    def __reduce__(self):
        raise TypeError("cannot pickle")


class StateOne:
    def __init__(self, species, n, l, j, m):
        self.q = (species, whole(n), whole(l), twice(j), twice(m))

    def getSpecies(self):
        return self.q[0]

    def getN(self):
        return self.q[1]

    def getL(self):
        return self.q[2]

    def getJ(self):
        return self.q[3] / 2

    def getM(self):
        return self.q[4] / 2

    def getEnergy(self, cache=None):
        return float(level(*self.q[:4]))

    def getKey(self):
        return repr(self.q)

    def __eq__(self, o):
        return self.q == o.q

    def __hash__(self):
        return hash(self.q)


class StateTwo:
    def __init__(self, *a):
        if len(a) == 2:
            self.s = [a[0], a[1]]
        else:
            self.s = [StateOne(*(x[k] for x in a)) for k in (0, 1)]

    def getFirstState(self):
        return self.s[0]

    def getSecondState(self):
        return self.s[1]

    def getSpecies(self):
        return [x.getSpecies() for x in self.s]

    def getN(self):
        return [x.getN() for x in self.s]

    def getL(self):
        return [x.getL() for x in self.s]

    def getJ(self):
        return [x.getJ() for x in self.s]

    def getM(self):
        return [x.getM() for x in self.s]

    def getEnergy(self, cache=None):
        return sum(x.getEnergy() for x in self.s)

    def getKey(self):
        return repr([x.q for x in self.s])

    def __eq__(self, o):
        return self.s == o.s

    def __hash__(self):
        return hash(tuple(self.s))


def frange(lo, hi, f):
    return [] if lo == ARB and hi == ARB else [f(lo), f(hi)]


class Base:
    real = None
    jitter = 0.0

    def __reduce__(self):
        raise TypeError("cannot pickle")

    def restrictEnergy(self, lo, hi):
        self.d["win"] = [whole(lo), whole(hi)]
        self._drop()

    def setConservedMomentaUnderRotation(self, ms):
        f = whole if self.pair else twice
        self.d["mom"] = sorted({f(x) for x in ms})
        self._drop()

    def _drop(self):
        self._states = None

    def states(self):
        if self._states is None:
            self._states = self._make()
        return self._states

    def getStates(self):
        return [self.kind(s) for s in self.states()]

    getMainStates = getStates

    def getNumStates(self):
        if not self.states():
            raise RuntimeError("The basis contains no states.")
        return len(self.states())

    getNumBasisvectors = getNumStates

    def buildBasis(self):
        pass

    def buildInteraction(self):
        pass

    def buildHamiltonian(self):
        pass

    def diagonalize(self, threshold=None):
        if Base.jitter:
            time.sleep(random.random() * Base.jitter)

    def getHamiltonian(self):
        if not self.states():
            raise RuntimeError("The basis contains no states.")
        return diags([self.energy(s) for s in self.states()], format="csc", dtype=float if self.real else complex)

    def getBasisvectors(self):
        if not self.states():
            raise RuntimeError("The basis contains no states.")
        d = dict(self.definition(), names=self.names())
        return csc_matrix(np.frombuffer(json.dumps(d).encode(), np.uint8).astype(float)[None, :])

    def getOverlap(self, state, *angles):
        k = self.key(state)
        return np.array([1.0 if s == k else 0.0 for s in self.states()])

    def names(self):
        return names([self.row(s) for s in self.states()])


def names(rows):
    import hashlib

    return hashlib.md5(repr([[float(x) for x in r] for r in rows]).encode()).hexdigest()[:12]


class SystemOne(Base):
    pair = False

    def __init__(self, a, cache=None):
        if isinstance(a, SystemOne):
            self.d, self._states, self.cache = copy.deepcopy(a.d), a._states, a.cache
            return
        self.cache = cache
        self.d = {"sp": a, "meth": cache.method, "real": self.real, "n": [], "l": [], "j": [], "m": [], "win": [], "mom": [],
                  "E": [0, 0, 0], "B": [0, 0, 0], "dia": False}
        self._states = None

    def definition(self):
        return self.d

    def _range(self, k, lo, hi, f):
        self.d[k] = [f(lo), f(hi)]
        self._drop()

    def restrictN(self, lo, hi):
        self._range("n", lo, hi, whole)

    def restrictL(self, lo, hi):
        self._range("l", lo, hi, whole)

    def restrictJ(self, lo, hi):
        self._range("j", lo, hi, twice)

    def restrictM(self, lo, hi):
        self._range("m", lo, hi, twice)

    def setEfield(self, v, *a):
        self.d["E"] = [whole(x) for x in v]

    def setBfield(self, v, *a):
        self.d["B"] = [whole(x) for x in v]

    def enableDiamagnetism(self, on):
        self.d["dia"] = bool(on)

    def getSpecies(self):
        return self.d["sp"]

    def _make(self):
        def ok(k, x):
            return not self.d[k] or self.d[k][0] <= x <= self.d[k][1]

        out, sp = [], self.d["sp"]
        s = spin2(sp)
        for n in range(max(1, self.d["n"][0]), self.d["n"][1] + 1):
            for l in range(0, min(n - 1, 2) + 1):
                for j in range(abs(2 * l - s), 2 * l + s + 1, 2):
                    for m in range(-j, j + 1, 2):
                        if ok("l", l) and ok("j", j) and ok("m", m):
                            if not self.d["mom"] or m in self.d["mom"]:
                                out.append((sp, n, l, j, m))
        return out

    def kind(self, q):
        return StateOne(q[0], q[1], q[2], q[3] / 2, q[4] / 2)

    def key(self, s):
        return s.q

    def row(self, q):
        return [q[1], q[2], q[3] / 2, q[4] / 2]

    def energy(self, q):
        return level(*q[:4]) + shift(self.d["E"], self.d["B"])


class SystemTwo(Base):
    pair = True

    def __init__(self, a, b=None, cache=None):
        if isinstance(a, SystemTwo):
            self.d, self._states, self.a, self.b = copy.deepcopy(a.d), a._states, a.a, a.b
            return
        self.a, self.b = type(a)(a), type(b)(b)
        self.d = {"a": self.a.d, "b": self.b.d, "meth": cache.method, "real": self.real, "win": [], "norm": 50, "angle": 0, "dist": -1,
                  "order": 3, "inv": "", "per": "", "ref": "", "mom": []}
        self._states = None

    def definition(self):
        return self.d

    def setMinimalNorm(self, x):
        self.d["norm"] = whole(1000 * x)

    def setAngle(self, x):
        self.d["angle"] = whole(1000 * x)

    def setDistance(self, x):
        self.d["dist"] = -1 if np.isinf(x) else whole(x * MICRO)

    def setOrder(self, x):
        self.d["order"] = whole(x)

    def setConservedParityUnderInversion(self, x):
        self.d["inv"] = x

    def setConservedParityUnderPermutation(self, x):
        self.d["per"] = x

    def setConservedParityUnderReflection(self, x):
        self.d["ref"] = x

    def _make(self):
        return [(x, y) for x in self.a.states() for y in self.b.states()
                if not self.d["mom"] or (x[4] + y[4]) // 2 in self.d["mom"]]

    def kind(self, q):
        return StateTwo(self.a.kind(q[0]), self.b.kind(q[1]))

    def key(self, s):
        return tuple(x.q for x in s.s)

    def row(self, q):
        return self.a.row(q[0]) + self.b.row(q[1])

    def energy(self, q):
        return self.a.energy(q[0]) + self.b.energy(q[1])
