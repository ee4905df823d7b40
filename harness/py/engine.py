"""Runs the calculation engine. argv: backend cut.so scratch mode; stdin: one JSON per line.
mode cache: {cfgs, ops}: histories on a shared cache directory. mode lines: {cfg, t, threads}: one
calculation with everything it announces. mode cli: {args, ...}: command lines."""
import json, os, random, shutil, signal, struct, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
import numpy as np

BACKEND, CUT, SCRATCH, MODE = sys.argv[1:5]
TYPES = {1008: "b", 1016: "h", 1032: "i", 1064: "q", 1108: "B", 1116: "H", 1132: "I", 1164: "Q", 2032: "f", 2064: "d"}


class Reader:
    def __init__(self, data):
        self.d, self.o = data, 0

    def typ(self):
        t, = struct.unpack_from("<H", self.d, self.o)
        self.o += 2
        return np.dtype(TYPES[t])

    def num(self, n=None):
        t = self.typ()
        k = 1 if n is None else int(n)
        if k < 0 or self.o + k * t.itemsize > len(self.d):
            raise ValueError("cut short")
        v = np.frombuffer(self.d, t, k, self.o)
        self.o += k * t.itemsize
        return v[0] if n is None else v

    def vec(self):
        return self.num(self.num())

    def matrix(self):
        flags, rows, cols = int(self.num()), int(self.num()), int(self.num())
        data = self.vec().astype(complex)
        if flags & 2:
            data = data + 1j * self.vec()
        ind, ptr = self.vec(), list(self.vec()) + [len(data)]
        m = np.zeros((rows, cols), complex)
        for k in range(len(ptr) - 1):
            for x in range(ptr[k], ptr[k + 1]):
                if flags & 1:
                    m[k, ind[x]] += data[x]
                else:
                    m[ind[x], k] += data[x]
        return m


def load(path):
    """entries and basis of a stored matrix"""
    with open(path + ".mat", "rb") as f:
        r = Reader(f.read())
    e = r.matrix()
    return e, r.matrix()


def operator(e, v):
    return v @ e @ v.conj().T


class Proc:
    """a running engine; announced files are read as soon as they are announced"""

    def __init__(self, cfg, cache, typ, threads, cut=0, jitter=0, tmp=None, keep=False, args=None, grab=load):
        self.lines, self.out, self.keep, self.grab = [], [], keep, grab
        self.cf = os.path.join(tmp, "conf%x.json" % id(self))
        if args is None:
            with open(self.cf, "w") as f:
                json.dump(cfg, f)
            args = ["-c", self.cf, "-o", cache, "-t", typ]
        env = dict(os.environ, OMP_NUM_THREADS=str(threads), OPENBLAS_NUM_THREADS="1", TMPDIR=tmp)
        if cut or jitter:
            env.update(LD_PRELOAD=CUT, CUT_DIR=cache, CUT_AT=str(cut), CUT_JITTER=str(jitter))
        self.p = subprocess.Popen([BACKEND] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=tmp)
        self.err = b""
        self.t = [threading.Thread(target=self.read), threading.Thread(target=self.reade)]
        self.part = 0
        for t in self.t:
            t.start()

    def reade(self):
        self.err = self.p.stderr.read()

    def read(self):
        for line in iter(self.p.stdout.readline, b""):
            line = line.decode("utf-8", "replace")
            if self.keep:
                self.lines.append(line)
            if line.startswith(">>TYP"):
                self.part += 1
            if line.startswith(">>OUT"):
                try:
                    idx, path = int(line[5:12]), line[34:].strip()
                    m = self.grab(path)
                except Exception as x:
                    idx, m = 0 if "idx" not in dir() else idx, None
                self.out.append((self.part, idx, m))

    def wait(self, timeout=120):
        try:
            self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            self.hung = True
        for t in self.t:
            t.join()
        if os.path.exists(self.cf):
            os.unlink(self.cf)
        rc = self.p.returncode
        self.end = "hung" if hasattr(self, "hung") else "ok" if rc == 0 else "killed" if rc == -signal.SIGKILL else "failed"
        return self


def same(a, b):
    if a is None or a[1].shape[0] != b[1].shape[0] or a[0].shape != b[0].shape:
        return False
    x, y = operator(*a), operator(*b)
    return bool(np.allclose(np.sort(np.diag(a[0]).real), np.sort(np.diag(b[0]).real), rtol=1e-7, atol=1e-16)
                and np.abs(x - y).max(initial=0) <= 1e-6 * np.abs(y).max(initial=0) + 1e-22)


def damage(kind, k, cache, rng):
    fs = []
    for d in ("cache_matrix_real", "cache_matrix_complex"):
        p = os.path.join(cache, d)
        if os.path.isdir(p):
            fs += sorted(os.path.join(p, f) for f in os.listdir(p))
    if kind == "db":
        fs = [os.path.join(cache, f) for f in sorted(os.listdir(cache)) if f.startswith("cache_matrix") and f.endswith(".db")]
    else:
        fs = [f for f in fs if f.endswith(".json" if kind.endswith("json") else ".mat")]
    # (in the order of creation, so that the choice does not depend on random names)
    fs.sort(key=lambda f: os.stat(f).st_mtime_ns)
    if not fs:
        return
    f = fs[k % len(fs)]
    if kind in ("db", "rmmat", "rmjson"):
        os.unlink(f)
        return
    with open(f, "rb") as g:
        b = g.read()
    if kind.startswith("cut"):
        n = rng.choice([0, 1, len(b) // 2, max(len(b) - 1, 0), rng.randrange(len(b) + 1)])
        b = b[:n] if n < len(b) else b[:-1]
    elif kind.startswith("garbage"):
        b = bytes(rng.randrange(256) for _ in range(len(b) or 7))
    elif kind.startswith("more"):
        b = b + b[-5:]
    with open(f, "wb") as g:
        g.write(b)


def history(n, h):
    tmp = os.path.join(SCRATCH, "h%d" % n)
    cache = os.path.join(tmp, "cache")
    os.makedirs(cache)
    rng = random.Random(h["seed"])
    truth, ev = {}, []
    for i, (c, t) in enumerate(h["cfgs"]):
        fresh = os.path.join(tmp, "fresh")
        os.makedirs(fresh)
        p = Proc(c, fresh, t, 1, tmp=tmp).wait()
        truth[i + 1] = {(a, b): m for a, b, m in p.out}
        shutil.rmtree(fresh)
        ev.append({"event": "Start" if i == 0 else "Truth", "n": i + 1, "end": p.end, "msg": "" if p.end == "ok" else p.err.decode("utf-8", "replace")[-200:], "cfg": {} if p.end == "ok" else c,
                   "want": sorted([a, b] for a, b in truth[i + 1]),
                   "differ": i > 0 and (set(truth[1]) != set(truth[i + 1]) or any(not same(truth[1][x], truth[i + 1][x]) for x in truth[1]))})

    def show(p, c):
        return {"c": c, "end": p.end, "got": [[a, b, (a, b) in truth[c] and truth[c][a, b] is not None and same(m, truth[c][a, b])] for a, b, m in p.out],
                "msg": p.err.decode("utf-8", "replace")[-200:] if p.end not in ("ok", "killed") else ""}

    def start(r):
        c, t = h["cfgs"][r["c"] - 1]
        return Proc(c, cache, t, r["threads"], r["cut"], r["jitter"], tmp=tmp)
    for o in h["ops"]:
        a = o["a"]
        if o["o"] == "Run":
            ev.append({"event": "Run", "a": a, "r": show(start(a).wait(), a["c"])})
        elif o["o"] == "Par":
            ps = [start(r) for r in a]
            ev.append({"event": "Par", "a": a, "r": [show(p.wait(), r["c"]) for p, r in zip(ps, a)]})
        else:
            damage(o["o"], a, cache, rng)
            ev.append({"event": "Damage", "a": o["o"]})
    shutil.rmtree(tmp)
    return ev


def table(path):
    """rows of a file of states; halves are doubled"""
    rows = []
    with open(path) as f:
        for line in f:
            x = line.split()
            if len(x) == 5:
                rows.append([int(x[0]), [int(x[1]), int(x[2]), round(2 * float(x[3])), round(2 * float(x[4]))]])
            elif len(x) == 9:
                rows.append([int(x[0])] + [[int(x[k]), int(x[k + 1]), round(2 * float(x[k + 2])), round(2 * float(x[k + 3]))] for k in (1, 5)])
            else:
                raise ValueError("row")
    return rows


def number(s):
    return int(round(float(s) * 1000)) if s not in (None, "") else 99999


def grab(path):
    with open(path + ".json") as f:
        p = json.load(f)
    return load(path), p


def lines(n, q):
    tmp = os.path.join(SCRATCH, "l%d" % n)
    cache = os.path.join(tmp, "cache")
    os.makedirs(cache)
    ev = [{"event": "Start", "q": q["q"]}]
    for again in range(q.get("runs", 1)):
        p = Proc(q["cfg"], cache, q["t"], q["threads"], 0, q["jitter"], tmp=tmp, keep=True, grab=grab).wait()
        outs = list(p.out)
        for s in p.lines:
            k = s[2:5] if s.startswith(">>") else "Text"
            e = {"event": k}
            try:
                if k in ("TYP", "BAS", "TOT", "DIM"):
                    e["n"] = int(s[5:])
                elif k == "STA":
                    e["rows"] = table(s[5:].strip())
                    os.unlink(s[5:].strip())
                elif k == "OUT":
                    x = s[5:33]
                    e["i"], e["step"], e["blocks"], e["block"] = (int(x[7 * i:7 * i + 7]) for i in range(4))
                    part, idx, m = outs.pop(0)
                    e["ok"] = m is not None
                    if m is not None:
                        (h, b), par = m
                        e["rows"], e["dim"] = b.shape
                        off = h - np.diag(np.diag(h))
                        g = b.conj().T @ b
                        e["diag"] = bool(h.shape[0] == h.shape[1] == b.shape[1] and np.abs(off).max(initial=0) <= 1e-9 * np.abs(h).max(initial=0) + 1e-25)
                        e["orth"] = bool(np.abs(g - np.eye(b.shape[1])).max(initial=0) <= 1e-3)
                        e["f"] = [number(float(par[x]) * q["unit"][x[0]]) for x in ("Ex", "Ey", "Ez", "Bx", "By", "Bz")]
                        e["r"] = number(par["R"]) if "R" in par else 0
                        e["sym"] = [number(par[x]) // 1000 if x in par and par[x] != "" else 32767 for x in ("inversion", "permutation", "reflection", "rotation")]
                elif k not in ("Text", "END", "ERR"):
                    e["event"] = "Odd"
            except Exception as x:
                e = {"event": "Odd", "line": s[:80], "why": repr(x)[:80]}
            if e["event"] != "Text":
                ev.append(e)
        ev.append({"event": "Stop", "end": p.end, "said": len(p.err) > 0,
                   "told": any(not x.startswith(">>") and x.strip() for x in p.lines), "msg": p.err.decode("utf-8", "replace")[-160:]})
    shutil.rmtree(tmp)
    return ev


def cli(n, q):
    tmp = os.path.join(SCRATCH, "c%d" % n)
    os.makedirs(os.path.join(tmp, "cache"))
    for name, text in q["files"].items():
        with open(os.path.join(tmp, name), "w") as f:
            f.write(text)
    p = Proc(None, os.path.join(tmp, "cache"), None, 2, tmp=tmp, keep=True, args=q["args"]).wait()
    o = "".join(p.lines)
    e = {"event": "Cli", "a": q["a"], "end": p.end, "usage": "Usage" in o or b"Usage" in p.err,
         "said": any(x.startswith(">>ERR") or not x.startswith(">>") and x.strip() for x in p.lines) or len(p.err) > 0,
         "fin": ">>END" in o, "outs": len(p.out), "args": [x.replace(tmp, "") for x in q["args"]], "msg": p.err.decode("utf-8", "replace")[-160:]}
    shutil.rmtree(tmp)
    return [e]


SHIFT = 40


def states(path):
    """states of a file, without their numbers"""
    return [r[1] if len(r) == 2 else r[1:] for r in sorted(table(path))]


def opers(n, q):
    """the operators behind the matrices of a calculation"""
    tmp = os.path.join(SCRATCH, "o%d" % n)
    cache = os.path.join(tmp, "cache")
    os.makedirs(cache)
    p = Proc(q["cfg"], cache, q["t"], q["threads"], tmp=tmp, keep=True, grab=grab).wait()
    ev, outs, part, total = [{"event": "Start", "q": q["q"]}], list(p.out), -1, 0
    for s in p.lines:
        try:
            if s.startswith(">>TYP"):
                part = int(s[5:])
            elif s.startswith(">>TOT"):
                total += int(s[5:])
            elif s.startswith(">>STA"):
                ev.append({"event": "STA", "part": part, "rows": states(s[5:].strip())})
                os.unlink(s[5:].strip())
            elif s.startswith(">>OUT"):
                x = s[5:33]
                (h, b), par = outs.pop(0)[2]
                m = operator(h + SHIFT * np.eye(h.shape[0]), b)
                e = {"event": "OUT", "part": part, "step": int(x[7:14]), "im": [],
                     "re": np.rint(m.real * 1000).astype(int).tolist(),
                     "sym": [number(par[x]) // 1000 if x in par and par[x] != "" else 32767 for x in ("inversion", "permutation", "reflection", "rotation")]}
                if q["t"] == "complex":
                    e["im"] = np.rint(m.imag * 1000).astype(int).tolist()
                elif np.abs(m.imag).max(initial=0) > 0:
                    e = {"event": "Odd", "why": "complex"}
                ev.append(e)
        except Exception as x:
            ev.append({"event": "Odd", "line": s[:80], "why": repr(x)[:80]})
    ev.append({"event": "Stop", "end": p.end, "outs": len(p.out), "total": total, "msg": p.err.decode("utf-8", "replace")[-160:]})
    shutil.rmtree(tmp)
    return ev


jobs = [json.loads(x) for x in sys.stdin if x.strip()]
f = {"cache": history, "lines": lines, "cli": cli, "op": opers}[MODE]
with ThreadPoolExecutor(int(os.environ.get("WORKERS", "6"))) as pool:
    for ev in pool.map(lambda x: f(*x), enumerate(jobs)):
        for e in ev:
            print(json.dumps(e))
sys.stdout.flush()
