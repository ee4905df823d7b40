"""Runs the helpers of the interface's plots. argv: repository scratch; stdin: one operation per line; stdout: what they returned."""
import builtins, importlib.util, io, json, math, os, signal, sys

REPO, SCRATCH = sys.argv[1:3]
sys.dont_write_bytecode = True
import numpy as np
from scipy import sparse

spec = importlib.util.spec_from_file_location("plot_utils", os.path.join(REPO, "pairinteraction_gui", "utils.py"))
utils = importlib.util.module_from_spec(spec)
spec.loader.exec_module(utils)
real_open = builtins.open
OUT = sys.stdout


def say(**e):
    OUT.write(json.dumps(e) + "\n")
    OUT.flush()


def N(j, m):
    return math.factorial((j + m) // 2) * math.factorial((j - m) // 2)


def elem(w, q):
    j, a, b, p, r = (q[k] for k in "jabpq")
    beta = math.pi / 2 if p == r == 1 else 2 * math.atan2(p, r)
    v = w.calc(j / 2, a / 2, b / 2, beta)
    x = float(v) * math.sqrt(N(j, a) * N(j, b)) * (p * p + r * r) ** (j / 2)
    scale = math.sqrt(N(j, a) * N(j, b)) * (p * p + r * r) ** (j / 2)
    return int(round(x)) if abs(x - round(x)) < 1e-3 + 1e-10 * scale else repr(x)


class Raw(io.FileIO):
    half = False

    def write(self, b):
        os.write(self.fileno(), bytes(b)[: len(b) // 2 if Raw.half else 0])
        os.kill(os.getpid(), signal.SIGKILL)


def dying(after, half):
    """the process dies when it has opened that many files for writing and writes into the next one"""
    Raw.half = half
    left = [after]

    def opener(path, mode="r", *a, **k):
        if "w" in mode or "a" in mode or "x" in mode:
            left[0] -= 1
            if left[0] < 0:
                b = io.BufferedWriter(Raw(path, mode.replace("b", "").replace("t", "")))
                return b if "b" in mode else io.TextIOWrapper(b)
        return real_open(path, mode, *a, **k)
    builtins.open = opener


def matrix(a, kind, cplx, zeros, n):
    a = np.array(a, dtype=float).reshape(n)
    m = {"csr": sparse.csr_matrix, "csc": sparse.csc_matrix}[kind](a * (1 + 0j) if cplx else a)
    if zeros and m.nnz:
        m.data[0] = 0       # (a stored zero)
    return m


def rows(m):
    d = np.asarray(m.todense())
    r = np.rint(d.real).astype(int)
    assert np.array_equal(r, d)
    return r.tolist()


def main():
    objs, folders = {}, {}
    for line in sys.stdin:
        o = json.loads(line)
        k = o["o"]
        try:
            if k == "Start":
                for w in objs.values():
                    w.save = lambda: None
                objs.clear()
                d = os.path.join(SCRATCH, "h%d" % o["h"])
                os.makedirs(d)
            elif k == "Open":
                objs[o["w"]] = utils.Wignerd(d)
                say(event=k)
            elif k == "Elem":
                say(event=k, **o["q"], v=elem(objs[o["w"]], o["q"]))
            elif k == "Save":
                objs[o["w"]].save()
                say(event=k)
            elif k == "Close":
                del objs[o["w"]]
                say(event=k)
            elif k == "Lost":
                objs[o["w"]].save = lambda: None
                del objs[o["w"]]
                say(event=k)
            elif k == "Killed":
                OUT.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        w = utils.Wignerd(d)
                        for q in o["qs"]:
                            elem(w, q)
                        dying(o["after"], o["half"])
                        w.save()
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
                say(event=k)
            elif k in ("Below", "Beside"):
                kind = "csr" if k == "Below" else "csc"
                a, b = (matrix(o[x], kind, o["c" + x], o["z"], o["n" + x]) for x in "ab")
                ra, rb = rows(a), rows(b)
                (utils.csr_vappend if k == "Below" else utils.csc_happend)(a, b)
                out = rows(a)
                assert rows(a * sparse.identity(a.shape[1], format=kind)) == out
                say(event=k, a=ra, b=rb, out=out, b2=rows(b))
            elif k == "Keep":
                a = matrix(o["a"], "csr", False, o["z"], o["n"])
                ra = rows(a)
                utils.csr_keepmax(a)
                say(event=k, a=ra, out=rows(a))
            elif k == "Image":
                x = np.array(o["x"], dtype=float)
                kw = {n: o[n] for n in ("low", "high") if n in o["give"]}
                kw.update({"c" + n: o[{"min": "lo", "max": "hi"}[n]] for n in ("min", "max") if "c" + n in o["give"]})
                r = utils.bytescale(x.reshape(o["shape"]) if o["shape"] else x, **kw)
                say(event=k, x=o["x"], lo=o["lo"], hi=o["hi"], low=o["low"], high=o["high"], out=[int(v) for v in np.ravel(r)])
        except Exception as e:
            import traceback
            say(event="Error", what=repr(e)[:300], where=traceback.format_exc()[-1000:], op=o)
    for w in objs.values():
        w.save = lambda: None


main()
