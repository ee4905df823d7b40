"""Runs the Python back end of the interface on a stand-in for the compiled library.
argv: repository scratch workers [api]; stdin: one history per line: {"pass", "calcs": [{"p", "par", "procs", "kill"}...]};
stdout: what was announced, and for every announced file what it holds."""
import builtins, io, json, os, pickle, shutil, signal, subprocess, sys, tempfile

REPO, SCRATCH = sys.argv[1:3]
WORKERS = int(sys.argv[3]) if sys.argv[3].isdigit() else 0
HERE = os.path.dirname(os.path.abspath(__file__))
os.makedirs(SCRATCH, exist_ok=True)


def stand_ins():
    sys.path[:0] = [os.path.join(HERE, "fakepi"), REPO]
    sys.dont_write_bytecode = True
    import logging, types, warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    # (the package itself imports the whole interface)
    pkg = types.ModuleType("pairinteraction_gui")
    pkg.__path__ = [os.path.join(REPO, "pairinteraction_gui")]
    sys.modules["pairinteraction_gui"] = pkg


def api(path, out):
    """histories of atom objects"""
    stand_ins()
    import math
    import numpy as np
    from pairinteraction_gui import pipy
    from pairinteraction_gui.pipy import atom as atoms
    ev = open(out, "w")
    sys.stdout = open(os.devnull, "w")

    def say(**e):
        ev.write(json.dumps(e) + "\n")
        ev.flush()

    def rng_(o, Q, f):
        lo, hi = o["min" + Q], o["max" + Q]
        return [] if lo is None or hi is None else [f(lo), f(hi)]

    def whole(x):
        assert abs(x - round(x)) < 1e-9, x
        return int(round(x))

    def one(o, all_):
        return {"sp": o["species"], "meth": all_["method"], "real": all_["isReal"], "dia": all_["diamagnetism"],
                "n": rng_(o, "N", whole), "l": rng_(o, "L", whole), "j": rng_(o, "J", lambda x: whole(2 * x)),
                "m": rng_(o, "M", lambda x: whole(2 * x)), "win": rng_(o, "Energy", whole),
                "mom": sorted(whole(2 * m) for m in o["momenta"] or []), "E": [whole(o["E" + x]) for x in "xyz"], "B": [whole(o["B" + x]) for x in "xyz"]}

    def outdict(o):
        part = lambda p: {k[len(p) + 1:]: v for k, v in o.items() if k.startswith(p + ".")}
        if o["nAtoms"] == 1:
            return one(part("atom1"), o)
        p = part("pair")
        sym = {None: "", "ODD": "O", "EVEN": "E"}
        return {"a": one(part("atom1"), o), "b": one(part("atom1" if o["useSameAtom"] else "atom2"), o), "meth": o["method"], "real": o["isReal"],
                "win": rng_(p, "Energy", whole), "norm": whole(1000 * p["minimalNorm"]), "angle": whole(1000 * p["angle"]),
                "dist": -1 if math.isinf(p["distance"]) else whole(p["distance"] * (1 << 20)), "order": p["order"], "inv": sym[p["inversion"]],
                "per": sym[p["permutation"]], "ref": sym[p["reflection"]], "mom": sorted(p["momenta"] or [])}

    for line in open(path):
        d = tempfile.mkdtemp(prefix="h", dir=SCRATCH)
        os.chdir(d)
        objs = {}
        say(event="Start")

        def see(i):
            a = objs[i]
            say(event="See", i=i, sys=a.system.definition(), out=outdict(a.config.toOutDict()))

        try:
            for o in json.loads(line):
                k, i = o["o"], o["i"]
                if k == "Make":
                    cls = pipy.atom_from_config if o["cls"] else atoms.AtomTwo if o["c"]["two"] else atoms.AtomOne
                    objs[i] = cls(dict(o["cfg"], pathCache=os.path.join(d, "cache")))
                    assert type(objs[i]) is (atoms.AtomTwo if o["c"]["two"] else atoms.AtomOne)
                    say(event=k, i=i, c=o["c"])
                elif k == "Update":
                    say(event=k, i=i, u=o["u"], changed=bool(objs[i].updateFromParams(dict(o["real"]))))
                elif k == "Refused":
                    try:
                        objs[i].updateFromParams(dict(o["real"]))
                        say(event="NotRefused")
                    except ValueError:
                        say(event=k)
                elif k == "Delete":
                    objs[i].delete()
                    say(event=k)
                elif k == "Copy":
                    objs[o["to"]] = objs[i].copy()
                    say(event=k, i=i, to=o["to"])
                elif k == "Again":
                    objs[o["to"]] = pipy.atom_from_config(objs[i].config.toOutDict())
                    say(event=k, i=i, to=o["to"])
                elif k == "Calc":
                    a = objs[i]
                    if a.noStates:
                        continue
                    a.calcEnergies(sort=o["sort"], calc_overlaps=o["ov"])
                    assert len(a.energies) == len(a.basisQunumbers)
                    if o["sort"]:
                        assert list(a.energies) == sorted(a.energies)
                    q = [tuple(s) for s in o["st"]]
                    say(event=k, i=i, e=[whole(2 * float(np.real(x))) for x in a.getEnergiesStates(q)])
                see(o["i"])
                if "to" in o:
                    see(o["to"])
        except Exception as e:
            import traceback
            say(event="Error", what=repr(e)[:300], where=traceback.format_exc()[-1500:], op=o)
        os.chdir("/")
        shutil.rmtree(d)
    ev.close()


def child(path, out):
    """all histories of a file, in this process"""
    stand_ins()
    import numpy as np
    from pairinteraction import stand_in
    from pairinteraction_gui import pipy_thread
    sink = open(os.devnull, "w")
    sys.stdout = sink
    ev = open(out, "w")

    def say(**e):
        ev.write(json.dumps(e) + "\n")
        ev.flush()

    class Lines:
        def __init__(self):
            self.muted = False

        def processOneLine(self, line):
            if self.muted or not line.startswith(">>"):
                return
            key, rest = line[2:5], line[5:].split()
            if key == "TOT":
                say(event="Tot", v=int(rest[0]))
            elif key in ("TYP", "BAS", "DIM"):
                say(event=key.capitalize(), v=int(rest[0]))
            elif key == "STA":
                rows = np.loadtxt(line[5:].strip(), ndmin=2)
                good = list(rows[:, 0]) == list(range(len(rows)))
                say(event="Sta", rows=len(rows), names=stand_in.names(rows[:, 1:]) if good else "misnumbered")
            elif key == "OUT":
                name = line[5:].split(None, 4)[4].strip()
                with open(name, "rb") as f:
                    d = pickle.load(f)
                v = d["basis"]
                sysd = json.loads(bytes(int(x) for x in v.toarray()[0]))
                names = sysd.pop("names")
                e = np.asarray(d["energies"])
                say(event="Out", tot=int(rest[0]), step=int(rest[1]), blocks=int(rest[2]), block=int(rest[3]), sys=sysd,
                    names=names, num=len(e), low=int(round(2 * float(np.real(e.min())))))
            elif key == "END":
                say(event="End")
            else:
                say(event="Unknown", line=line)

    class Raw(io.FileIO):
        """the process dies while it writes"""
        def write(self, b):
            Kill.left -= 1
            if Kill.left < 0:
                n = len(b) // 2 if Kill.half else 0
                os.write(self.fileno(), bytes(b)[:n])
                os.kill(os.getpid(), signal.SIGKILL)
            return super().write(b)

    class Kill:
        left, half = 0, False

    real_open = builtins.open

    def dying(folder, left, half):
        Kill.left, Kill.half = left, half

        def opener(path, mode="r", *a, **k):
            if isinstance(path, (str, os.PathLike)) and str(path).startswith(folder) and ("w" in mode or "a" in mode or "x" in mode):
                Kill.left -= 1
                b = io.BufferedWriter(Raw(path, mode.replace("b", "").replace("t", "")))
                if Kill.left < 0:
                    os.kill(os.getpid(), signal.SIGKILL)
                return b if "b" in mode else io.TextIOWrapper(b)
            return real_open(path, mode, *a, **k)
        builtins.open = opener

    for line in open(path):
        h = json.loads(line)
        d = tempfile.mkdtemp(prefix="h", dir=SCRATCH)
        os.mkdir(os.path.join(d, "tmp"))
        tempfile.tempdir = os.path.join(d, "tmp")
        cache = os.path.join(d, "cache")
        lines = Lines()
        th = pipy_thread.PipyThread(lines, context=h.get("context", "default"), pass_atom=h["pass"])
        for c in h["calcs"]:
            par = dict(c["par"], pathCache=cache, pathConf=os.path.join(d, "conf.json"), NUM_PROCESSES=c["procs"])
            if c.get("kill") is not None:
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    lines.muted = True
                    t = pipy_thread.PipyThread(lines, pass_atom=h["pass"])
                    dying(cache, c["kill"][0], c["kill"][1])
                    t.setParams(par)
                    t.setNumProcesses(1)
                    try:
                        t.run()
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
                say(event="Killed")
                continue
            say(event="Calc", p=c["p"])
            stand_in.Base.jitter = c.get("jitter", 0)
            try:
                th.setParams(par)
                th.setNumProcesses(c["procs"])
                th.run()
            except Exception as e:
                import traceback
                say(event="Error", what=repr(e)[:300], where=traceback.format_exc()[-1500:])
                break
        th.killPool()
        shutil.rmtree(d)
    ev.close()


def main():
    hs = sys.stdin.read().splitlines()
    jobs = []
    for w in range(WORKERS):
        i, o = os.path.join(SCRATCH, "in%d" % w), os.path.join(SCRATCH, "out%d" % w)
        with open(i, "w") as f:
            f.write("".join(x + "\n" for x in hs[w::WORKERS]))
        env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        jobs.append((subprocess.Popen([sys.executable, os.path.abspath(__file__), REPO, SCRATCH, "api" if "api" in sys.argv else "child", i, o], env=env, start_new_session=True), o))
    for p, o in jobs:
        if p.wait():
            with open(o, "a") as f:
                f.write(json.dumps({"event": "Crash", "code": p.returncode}) + "\n")
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        with open(o) as f:
            sys.stdout.write(f.read())


if __name__ == "__main__":
    if sys.argv[3:4] == ["child"]:
        child(sys.argv[4], sys.argv[5])
    elif sys.argv[3:4] == ["api"]:
        api(sys.argv[4], sys.argv[5])
    else:
        main()
