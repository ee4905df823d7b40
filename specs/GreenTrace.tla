----------------------------- MODULE GreenTrace -----------------------------
(* Histories of a real GreenTensor object: a tensor is the one of the      *)
(* positions and of the plate accepted last, an impossible plate is        *)
(* refused and changes nothing.                                            *)
EXTENDS TraceBase
S == INSTANCE Green
VARIABLES v, p, L
vars == <<l, v, p, L>>
TInit == TrackInit /\ l = 1 /\ v = <<>> /\ p = 0 /\ L = 0
Near(a, b) == a - b <= 2 /\ b - a <= 2
I3 == 1 .. 3
Start == IsEvent("Start") /\ v' = Ev.v /\ L' = Ev.L /\ p' = 0
Plate == /\ IsEvent("Plate") /\ Ev.res_err = ~S!Possible(v, Ev.a)
         /\ p' = (IF Ev.res_err THEN p ELSE Ev.a) /\ UNCHANGED <<v, L>>
Copy == IsEvent("Copy") /\ ~Ev.res_err /\ UNCHANGED <<v, p, L>>
DD == /\ IsEvent("DD") /\ ~Ev.res_err /\ UNCHANGED <<v, p, L>>
      /\ \A i, j \in I3 : Near(Ev.res[i][j], S!DD(v, p, L, i, j))
DQ == /\ IsEvent("DQ") /\ ~Ev.res_err /\ UNCHANGED <<v, p, L>>
      /\ \A i, j, k \in I3 : Near(Ev.res[i][j][k], S!DQ(v, p, L, i, j, k))
QD == /\ IsEvent("QD") /\ ~Ev.res_err /\ UNCHANGED <<v, p, L>>
      /\ \A i, j, k \in I3 : Near(Ev.res[i][j][k], S!QD(v, p, L, i, j, k))
TNext == Start \/ Plate \/ Copy \/ DD \/ DQ \/ QD
TSpec == TInit /\ [][TNext]_vars
=============================================================================
