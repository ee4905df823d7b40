"""Replays sessions with the graphical interface's reader. argv: worker.py; stdin: one session per line."""
import contextlib, importlib.util, io, json, os, re, shutil, subprocess, sys
from PyQt5.QtCore import QCoreApplication, Qt

spec = importlib.util.spec_from_file_location("worker", sys.argv[1])
worker = importlib.util.module_from_spec(spec)
spec.loader.exec_module(worker)
app = QCoreApplication([])


def text(x, pipy=False):
    k = x["k"]
    if k == "Text":
        s = x["f"]
    elif k in ("STA",):
        s = ">>STA %s" % x["f"]
    elif k == "OUT":
        s = ">>OUT%7d%7d%7d%7d %s" % (x["i"], x["step"], x["blocks"], x["block"], x["f"])
    elif k == "ERR":
        s = ">>ERR" + x["f"]
    elif k == "END":
        s = ">>END"
    else:
        s = ">>%s%7d" % (k, x["n"])
    # (a calculation inside the interface ends its lines with a blank)
    return s + (" " if pipy else "\n")


def announced(line):
    """what a line of the engine says"""
    k = line[2:5] if line.startswith(">>") else ""
    if k in ("TYP", "BAS", "TOT", "DIM"):
        return {"k": k, "n": int(line[5:])}
    if k in ("STA", "ERR"):
        return {"k": k, "f": line[5:].strip()}
    if k == "OUT":
        x = re.match(r" *(\d+) +(\d+) +(\d+) +(\d+) +(.*)", line[5:])
        return {"k": k, "f": x[5].strip(), **{y: int(x[i + 1]) for i, y in enumerate(("i", "step", "blocks", "block"))}}
    return {"k": "END"} if k == "END" else {"k": "Text", "f": ""}


class Pipe(io.BytesIO):
    def __init__(self, data, w, quit):
        super().__init__(data)
        self.w, self.n, self.q = w, 0, quit

    def readline(self, *a):
        self.n += 1
        if self.n == self.q:
            self.w.exiting = True
        return super().readline(*a)


def see(q, e):
    m = q.message
    k = m.find(": ")
    head = m[:k + 2] if k >= 0 else ""
    e.update(part=q._type, dim=q.dim, cur=q.current, tot=q.total, fin=q.finishedgracefully, nums=[int(x) for x in re.findall(r"\d+", m[len(head):])],
             head=head, files=[list(x) for x in q.basisfiles], waiting=[x.qsize() for x in q.dataqueues])
    return e


def session(ops):
    q = worker.AllQueues()
    yield see(q, {"event": "Start"})
    for o in ops:
        e = {"event": o["o"]}
        if "a" in o:
            e["a"] = o["a"]
        if o["o"] == "Line":
            x = text(o["a"], o["style"] == "pipy")
            q.processOneLine(x.encode() if o["style"] == "bytes" else x)
        elif o["o"] == "Take":
            d = q.dataqueues[o["a"] - 1]
            e["got"] = [] if d.empty() else [d.get()]
        elif o["o"] == "TakeFile":
            f = q.basisfiles[o["a"] - 1]
            e["got"] = [f.pop(0)] if f else []
        elif o["o"] == "Clear":
            q.clear()
        elif o["o"] in ("Stream", "Engine"):
            q.clear()
            if o["o"] == "Engine":
                d = o["dir"]
                os.makedirs(d + "/cache", exist_ok=True)
                with open(d + "/conf.json", "w") as f:
                    json.dump(o["cfg"], f)
                r = subprocess.run([o["backend"], "-c", d + "/conf.json", "-o", d + "/cache", "-t", o["t"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, OMP_NUM_THREADS="3", TMPDIR=d), timeout=120)
                shutil.rmtree(d)
                data = r.stdout
                o["a"], o["quit"], e["event"] = [announced(x) for x in data.decode().split("\n")], 0, "Stream"
                e["a"] = o["a"]
            else:
                data = "".join(text(x) for x in o["a"]).encode()
            w = worker.Worker(q)
            errors = []
            w.criticalsignal.connect(errors.append, Qt.DirectConnection)
            p = Pipe(data, w, o["quit"])
            w.stdout = p
            w.run()
            e.update(errors=errors, closed=p.closed, quit=o["quit"])
        yield see(q, e)


out = sys.stdout
for line in sys.stdin:
    if line.strip():
        with contextlib.redirect_stdout(io.StringIO()):
            ev = list(session(json.loads(line)))
        for e in ev:
            out.write(json.dumps(e) + "\n")
        out.flush()
