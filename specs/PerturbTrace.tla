---------------------------- MODULE PerturbTrace ----------------------------
(* Coefficients computed by the real class.                                *)
EXTENDS TraceBase, FiniteSets
P == INSTANCE Perturb
TInit == TrackInit /\ l = 1
Spin(sp) == IF sp \in {"Sr3", "Ca3"} THEN 2 ELSE IF sp \in {"Sr1"} THEN 0 ELSE 1
Atom(x) == [sp |-> x.sp, s |-> Spin(x.sp), q |-> x.q]
Pair(x) == <<Atom(x[1]), Atom(x[2])>>
Single == /\ IsEvent("Single") /\ Ev.o = "ok"
          /\ Ev.r = P!C6(Pair(Ev.pair), Ev.dn, Ev.ax, Ev.salt)
Matrix == /\ IsEvent("Matrix") /\ Ev.o = "ok"
          /\ LET ps == [i \in 1 .. Len(Ev.pairs) |-> Pair(Ev.pairs[i])]
                 set == {ps[i] : i \in 1 .. Len(ps)} IN
             \A i \in 1 .. Len(ps) : \A j \in 1 .. Len(ps) :
                /\ Ev.c6[i][j] = P!C6Matrix(set, ps[i], ps[j], Ev.dn, Ev.ax, Ev.salt)
                /\ Ev.c3[i][j] = (IF i = j THEN 0 ELSE P!V(ps[i], ps[j], Ev.ax, Ev.salt))
                /\ Ev.e[i][j] = (IF i = j THEN P!Energy(ps[i]) ELSE 0)
TNext == Single \/ Matrix
TSpec == TInit /\ [][TNext]_l
=============================================================================
