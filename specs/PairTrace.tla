----------------------------- MODULE PairTrace -----------------------------
(* Pair Hamiltonians built by the real code. Bases sets the one-atom       *)
(* labels and energies; each Combine is one window and sector, its basis   *)
(* vectors given in terms of products of one-atom basis vectors, amplitude *)
(* in units of 1/10000.                                                    *)
EXTENDS TraceBase
VARIABLES S1, S2, E1, E2
P == INSTANCE Pair
vars == <<S1, S2, E1, E2>>
TInit == TrackInit /\ l = 1 /\ S1 = <<>> /\ S2 = <<>> /\ E1 = <<>> /\ E2 = <<>>
Bases == IsEvent("Bases") /\ S1' = Ev.s1 /\ S2' = Ev.s2 /\ E1' = Ev.e1 /\ E2' = Ev.e2
Pos(r) == <<(r \div Len(S2)) + 1, (r % Len(S2)) + 1>>
\* column: sequence of <<row, amplitude>>
Vec(c) == [p \in {Pos(c[i][1]) : i \in 1 .. Len(c)} |-> LET i == CHOOSE i \in 1 .. Len(c) : Pos(c[i][1]) = p IN c[i][2]]
RECURSIVE DotFrom(_, _, _)
DotFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE
   (LET m == {k \in 1 .. Len(b) : b[k][1] = a[i][1]} IN
    IF m = {} THEN 0 ELSE a[i][2] * b[CHOOSE k \in m : TRUE][2]) + DotFrom(a, b, i + 1)
Near(x, y, t) == P!IAbs(x - y) <= t
Combine ==
  /\ IsEvent("Combine")
  /\ LET sym == Ev.sym
         A == P!Allowed(S1, S2, E1, E2, Ev.cut, sym)
         cols == Ev.cols
         n == Len(cols) IN
     /\ Ev.nc = Len(S1) * Len(S2) /\ Ev.nb = n /\ Len(Ev.diag) = n /\ Ev.offdiag = 0
     /\ n = P!Dim(S1, S2, A, sym)
     /\ \A k \in 1 .. n : LET v == Vec(cols[k]) IN
          /\ \A p \in DOMAIN v : p \in A /\ Ev.diag[k] = P!Energy(E1, E2, p)
          /\ P!InSector(S1, S2, v, sym)
     /\ \A i \in 1 .. n : \A j \in i .. n :
          Near(DotFrom(cols[i], cols[j], 1), IF i = j THEN 100000000 ELSE 0, 100000)
  /\ UNCHANGED vars
\* the pairs marked as inside the window
Window == /\ IsEvent("Window")
          /\ {r \in 0 .. Len(S1) * Len(S2) - 1 : Ev.marked[r + 1]}
               = {r \in 0 .. Len(S1) * Len(S2) - 1 : P!InWindow(P!Energy(E1, E2, Pos(r)), Ev.cut)}
          /\ UNCHANGED vars
\* the order on sectors used to collect them is a strict total order
Order == /\ IsEvent("Order") /\ Ev.lt = (\E i \in 1 .. 4 : Ev.a[i] < Ev.b[i] /\ \A j \in 1 .. i - 1 : Ev.a[j] = Ev.b[j])
         /\ UNCHANGED vars
TNext == Bases \/ Combine \/ Window \/ Order
TSpec == TInit /\ [][TNext]_<<l, S1, S2, E1, E2>>
=============================================================================
