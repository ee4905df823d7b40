---------------------------- MODULE MatFileTrace ----------------------------
(* Files read by the program (Load, into an object that already holds a    *)
(* matrix) and by the graphical interface (PyRead). Base sets the file;    *)
(* every later event says how the file differs from it.                    *)
EXTENDS TraceBase
VARIABLES file, cplx
F == INSTANCE MatFile
TInit == TrackInit /\ l = 1 /\ file = <<>> /\ cplx = FALSE
\* a file given by the specification, or one that was saved: the content is known
Base == /\ IsEvent("Base") /\ file' = Ev.f /\ cplx' = Ev.cplx
\* the program saved a matrix with this content: the file says the same
Saved == /\ IsEvent("Saved") /\ file' = Ev.f /\ cplx' = Ev.cplx
         /\ LET x == F!Read(Ev.f, Ev.cplx) IN
            x.ok /\ F!SameMatrix(x.e, Ev.m.e) /\ F!SameMatrix(x.b, Ev.m.b) /\ ~x.e.csr /\ ~x.b.csr
            /\ x.end = Len(Ev.f) + 1
        
Damaged(d) == CASE d.k = "none" -> file
                [] d.k = "cut" -> SubSeq(file, 1, d.n)
                [] d.k = "set" -> [file EXCEPT ![d.n + 1] = d.v]
                [] d.k = "missing" -> <<>>
Same(o, x) == F!SameMatrix(x.e, o.e) /\ F!SameMatrix(x.b, o.b)
Load == /\ IsEvent("Load")
        /\ LET f == Damaged(Ev.d)
               x == IF Ev.d.k = "missing" THEN F!Bad ELSE F!Read(f, Ev.want) IN
           /\ \/ Ev.ok = (x.ok /\ ~x.e.csr /\ ~x.b.csr)
              \* the damage may be such that nothing is lost
              \/ Ev.ok /\ Ev.d.k = "set" /\ LET y == F!Read(file, Ev.want) IN y.ok /\ Same(Ev.m, y)
           \* a refused load leaves the object as it was, also for what it stores later
           /\ IF Ev.ok THEN (x.ok => Same(Ev.m, x)) /\ Ev.later = Ev.m
              ELSE Ev.m = Ev.old /\ Ev.later = Ev.old
        /\ UNCHANGED <<file, cplx>>
\* numpy may lose the sign of a zero when it puts complex numbers together
Pos(v) == IF v = <<0, 0, 0, 0, 0, 0, 0, 128>> THEN F!ZeroV ELSE v
PosT(m) == [r |-> m.r, c |-> m.c, t |-> [i \in 1 .. Len(m.t) |-> <<m.t[i][1], m.t[i][2], Pos(m.t[i][3]), Pos(m.t[i][4])>>]]
SamePy(o, x) == F!SameMatrix(PosT(x.e), PosT(o.e)) /\ F!SameMatrix(PosT(x.b), PosT(o.b))
PyRead == /\ IsEvent("PyRead")
          /\ LET f == Damaged(Ev.d)
                 x == F!Read(f, cplx) IN
             IF Ev.d.k = "none" THEN x.ok /\ Ev.ok /\ SamePy(Ev.m, x) /\ Ev.agree
             ELSE ~Ev.ok
          /\ UNCHANGED <<file, cplx>>
\* nothing was left open or behind by any number of refused loads
Handles == IsEvent("Handles") /\ Ev.leaked = 0 /\ UNCHANGED <<file, cplx>>
NoSave == IsEvent("NoSave") /\ Ev.refused /\ UNCHANGED <<file, cplx>>
TNext == Base \/ Saved \/ Load \/ PyRead \/ Handles \/ NoSave
TSpec == TInit /\ [][TNext]_<<l, file, cplx>>
=============================================================================
