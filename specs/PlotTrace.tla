------------------------------ MODULE PlotTrace ------------------------------
(* What the interface's real helpers returned, against module Plot.          *)
EXTENDS TraceBase
P == INSTANCE Plot
vars == <<l>>
TInit == TrackInit /\ l = 1
Elem == IsEvent("Elem") /\ Ev.v = P!Elem(Ev.j, Ev.a, Ev.b, Ev.p, Ev.q)
\* opened, closed (stored), given up, interrupted while storing: no effect on any answer
Life == IsEvent("Open") \/ IsEvent("Save") \/ IsEvent("Close") \/ IsEvent("Lost") \/ IsEvent("Killed")
Below == IsEvent("Below") /\ Ev.out = P!Below(Ev.a, Ev.b) /\ Ev.b2 = Ev.b
Beside == IsEvent("Beside") /\ Ev.out = P!Beside(Ev.a, Ev.b) /\ Ev.b2 = Ev.b
Keep == IsEvent("Keep") /\ Ev.out = P!Strongest(Ev.a)
Image == IsEvent("Image") /\ Ev.out = P!Image(Ev.x, Ev.lo, Ev.hi, Ev.low, Ev.high)
TNext == Elem \/ Life \/ Below \/ Beside \/ Keep \/ Image
TSpec == TInit /\ [][TNext]_vars
=============================================================================
