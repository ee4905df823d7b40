"""Reads stored matrices with the graphical interface's loader. stdin: one JSON per line with
{f: bytes, csr, cplx}; argv: path of loader.py, scratch directory, seed, cut probability 1/every."""
import importlib.util, json, os, random, sys
import warnings
import numpy as np
warnings.simplefilter("ignore")
spec = importlib.util.spec_from_file_location("loader", sys.argv[1])
loader = importlib.util.module_from_spec(spec)
spec.loader.exec_module(loader)
scratch, seed, every = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
rng = random.Random(seed)


def show(m):
    m = m.tocoo()
    t = []
    for r, c, v in zip(m.row, m.col, m.data):
        v = complex(v)
        t.append([int(r), int(c), list(np.float64(v.real).tobytes()), list(np.float64(v.imag).tobytes())])
    return {"r": int(m.shape[0]), "c": int(m.shape[1]), "t": t}


def diag(m):
    d = [0.0] * m["r"]
    for r, c, re, _ in m["t"]:
        if r == c:
            d[r] = float(np.frombuffer(bytes(re))[0])
    return d


def read(data):
    p = os.path.join(scratch, "py")
    with open(p + ".mat", "wb") as f:
        f.write(bytes(data))
    try:
        with open(p + ".mat", "rb") as f:
            b = loader.BinaryLoader()
            m = {"e": show(b.readMatrix(f)), "b": show(b.readMatrix(f))}
        agree = True
        for order in ((0, 1), (1, 0), (0, 0, 1, 1), (1, 1, 0)):
            e = loader.Eigensystem(p)
            for k in order:
                if k == 0:
                    agree &= list(map(float, e.energies)) == diag(m["e"])
                else:
                    agree &= show(e.basis) == m["b"]
        return True, m, agree
    except Exception as x:
        return False, str(type(x).__name__), False


def emit(ev):
    print(json.dumps(ev), flush=True)


for line in sys.stdin:
    b = json.loads(line)
    emit({"event": "Base", "f": b["f"], "cplx": b["cplx"]})
    ok, m, agree = read(b["f"])
    emit({"event": "PyRead", "d": {"k": "none"}, "ok": ok, "m": m, "agree": bool(agree)})
    for n in range(len(b["f"])):
        if rng.randrange(every) == 0:
            ok, m, agree = read(b["f"][:n])
            emit({"event": "PyRead", "d": {"k": "cut", "n": n}, "ok": ok, "m": m if ok else "", "agree": False})
