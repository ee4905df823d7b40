------------------------------ MODULE RotTrace ------------------------------
(* Rotations of a real SystemOne / SystemTwo and the elements of WignerD.  *)
(* B: vectors in force, U: vectors without fields, H: the Hamiltonian if   *)
(* it is known (<<>>: a field was changed since); amplitudes 1/10000,      *)
(* energies 1/1000.                                                        *)
EXTENDS TraceBase
S == INSTANCE Rot
\* drift: number of rotations since U was last seen
VARIABLES c, set, B, U, H, drift
vars == <<l, c, set, B, U, H, drift>>
TInit == TrackInit /\ l = 1 /\ c = <<>> /\ set = <<>> /\ B = <<>> /\ U = <<>> /\ H = <<>> /\ drift = 0
N == Len(c.st)
Nv == Len(B[1])
Tol == 30
\* (energies: rounding of the vectors enters)
HTol == 40
Start == /\ IsEvent("Start") /\ c' = [Ev.cfg EXCEPT !.st = Ev.st] /\ set' = S!New
         /\ Cardinality({Ev.st[i] : i \in 1 .. Len(Ev.st)}) = Len(Ev.st) /\ {Ev.st[i] : i \in 1 .. Len(Ev.st)} = {Ev.cfg.st[i] : i \in 1 .. Len(Ev.cfg.st)}
         /\ B' = Ev.B.e /\ U' = Ev.B.e /\ H' = Ev.H.e /\ drift' = 0
Same == Ev.st = c.st /\ Len(Ev.B.e) = N
Expected == \* operator of the settings between the vectors, in 1/1000
  LET O == TLCEval(S!Operator(c.T, c.pool, set, c.st))
      A == TLCEval(S!MMul(O, B, N, N, Nv))
      low(z) == <<S!Over(z[1], 10), S!Over(z[2], 10)>>
      L == TLCEval([i \in 1 .. N |-> [j \in 1 .. Nv |-> low(A[i][j])]])
      P == TLCEval(S!MMul(S!Adj(B, N, Nv), L, Nv, N, Nv)) IN
  [i \in 1 .. Nv |-> [j \in 1 .. Nv |-> S!Down(P[i][j])]]
HNow == IF H = <<>> THEN TLCEval(Expected) ELSE H
Turned(t, X) == TLCEval(S!Apply(TLCEval(S!Turn(c.pool, c.st, t)), X, N, Nv))
Rotate ==
  /\ More /\ Ev.event \in {"Rotate", "Axes"} /\ l' = l + 1 /\ UNCHANGED <<c, set>>
  /\ Same /\ ~Ev.H_err /\ S!Like(Ev.H.e, HNow, HTol) /\ H' = Ev.H.e
  /\ LET free == c.cplx \/ S!Real(Ev.a) IN
     IF Ev.event = "Rotate" THEN Ev.res_err = ~free
     ELSE c.cplx => ~Ev.res_err
  /\ IF Ev.res_err THEN S!Like(Ev.B.e, B, 2) /\ B' = B /\ U' = U /\ drift' = drift
     ELSE LET X == Turned(Ev.a, B)
              V == IF U = B THEN Ev.B.e ELSE Turned(Ev.a, U) IN
          /\ B' = Ev.B.e /\ drift' = (IF U = B THEN 0 ELSE drift + 1)
          /\ \/ S!Like(Ev.B.e, X, Tol) /\ U' = V
             \/ Ev.event = "Axes" /\ S!Like(Ev.B.e, S!Negative(X), Tol) /\ U' = (IF U = B THEN V ELSE S!Negative(V))
Field ==
  /\ More /\ Ev.event \in {"E", "B"} /\ l' = l + 1 /\ UNCHANGED c /\ Same
  /\ Ev.res_err = (~c.cplx /\ Ev.a[2] # 0)
  /\ IF Ev.res_err THEN S!Like(Ev.B.e, B, 2) /\ UNCHANGED <<set, B, H, U, drift>>
     ELSE /\ S!Like(Ev.B.e, U, Tol * (1 + drift)) /\ B' = Ev.B.e /\ U' = Ev.B.e /\ drift' = 0 /\ H' = <<>>
          /\ set' = (IF Ev.event = "E" THEN [set EXCEPT !.e = Ev.a] ELSE [set EXCEPT !.b = Ev.a])
Read ==
  /\ More /\ Ev.event \in {"Ham", "Save", "Copy"} /\ l' = l + 1 /\ UNCHANGED <<c, set, U, drift>> /\ Same
  /\ ~Ev.res_err /\ ~Ev.H_err /\ S!Like(Ev.B.e, B, 2) /\ S!Like(Ev.H.e, HNow, HTol) /\ B' = Ev.B.e /\ H' = Ev.H.e
\* the vectors become combinations of the old ones
Diag ==
  /\ IsEvent("Diag") /\ UNCHANGED <<c, set, U, drift>> /\ Same /\ ~Ev.res_err /\ ~Ev.H_err /\ B' = Ev.B.e /\ H' = Ev.H.e
  /\ \A i, j \in 1 .. Nv : i = j \/ S!NearC(Ev.H.e[i][j], S!Z, 1)
  /\ S!IAbs(S!SumI(LAMBDA i : Ev.H.e[i][i][1] - HNow[i][i][1], Nv)) <= HTol
Weights(ids, t) ==
  LET cols == [i \in 1 .. Len(ids) |-> CHOOSE k \in 1 .. N : c.st[k] = ids[i]]
      T == TLCEval(S!Turn(c.pool, c.st, t))
      P == TLCEval(S!MMul(S!Adj(B, N, Nv), [i \in 1 .. N |-> [k \in 1 .. Len(ids) |-> T[i][cols[k]]]], Nv, N, Len(ids))) IN
  [v \in 1 .. Nv |-> S!SumI(LAMBDA k : LET z == S!Down(P[v][k]) IN S!Over(S!Norm2(z), S!K), Len(ids))]
Overlap ==
  /\ More /\ Ev.event \in {"Overlap", "OverlapAxes"} /\ l' = l + 1 /\ UNCHANGED <<c, set, B, U, H, drift>> /\ Same /\ S!Like(Ev.B.e, B, 2)
  /\ IF Ev.res_err THEN ~c.cplx /\ (~S!Real(Ev.a[2]) \/ Ev.event = "OverlapAxes")
     ELSE /\ Ev.event = "Overlap" => (c.cplx \/ S!Real(Ev.a[2]))
          /\ LET w == TLCEval(Weights(Ev.a[1], Ev.a[2])) IN
             Len(Ev.res) = Nv /\ \A v \in 1 .. Nv : S!IAbs(Ev.res[v] - w[v]) <= 60
Wigner ==
  /\ IsEvent("Wigner") /\ UNCHANGED <<c, set, B, U, H, drift>>
  /\ S!NearC(Ev.v, S!D(Ev.jj, Ev.p, Ev.m, Ev.t[1], Ev.t[2], Ev.t[3]), 12)
  /\ S!NearC(<<Ev.small, 0>>, <<S!Small(Ev.jj, Ev.p, Ev.m, Ev.t[2]), 0>>, 12)
\* tables of one large momentum, in 1/1000: for angles a, b, a + b, a half and a full turn
Table ==
  /\ IsEvent("Table") /\ UNCHANGED <<c, set, B, U, H, drift>>
  /\ LET n == Ev.jj + 1
         tol == 12 + n \div 8
         mul(x, y) == TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. n |-> S!Over(S!SumI(LAMBDA k : x[i][k] * y[k][j], n), 1000)])])
         tr(x) == [i \in 1 .. n |-> [j \in 1 .. n |-> x[j][i]]]
         near(x, y, t) == \A i \in 1 .. n : \A j \in 1 .. n : S!IAbs(x[i][j] - y[i][j]) <= t
         unit(s) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN s * 1000 ELSE 0]]
         half == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i + j = n + 1 THEN 1000 * S!MinusOne(i - 1) ELSE 0]]
     IN
     /\ near(mul(Ev.A, tr(Ev.A)), unit(1), tol) /\ near(mul(Ev.A, Ev.C), Ev.AC, tol)
     /\ near(mul(Ev.Q, Ev.Q), Ev.P, tol) /\ near(Ev.P, half, 1) /\ near(Ev.F, unit(S!MinusOne(Ev.jj)), 1)
     /\ near(mul(Ev.C, Ev.M), unit(1), tol)
     /\ S!IAbs(10 * Ev.A[n][n] - S!CPow(<<S!Half(Ev.a)[1], 0>>, Ev.jj)[1]) <= 20
     /\ S!IAbs(10 * Ev.A[1][n] - S!CPow(<<S!Half(Ev.a)[2], 0>>, Ev.jj)[1]) <= 20
\* a two-atom system: both atoms are rotated
Pair ==
  /\ IsEvent("Pair") /\ UNCHANGED <<c, set, B, U, H, drift>>
  /\ ~Ev.res_err /\ Ev.st = Ev.st0 /\ S!Like(Ev.H.e, Ev.H0.e, 2)
  /\ LET T == TLCEval(S!TurnPairs(Ev.pool, Ev.st, Ev.t)) IN
     S!Like(Ev.B.e, S!Apply(T, Ev.B0.e, Len(Ev.st), Ev.B0.c), Tol)
\* the physics does not depend on the coordinates: fields or the interatomic axis in the new
\* coordinates act as the rotated operator. In units of 1/1000 of the largest entry.
Covariant ==
  /\ IsEvent("Covariant") /\ UNCHANGED <<c, set, B, U, H, drift>>
  /\ ~Ev.res_err
  /\ LET n == Len(Ev.st)
         T == TLCEval(IF Ev.pairs THEN S!TurnPairs(Ev.pool, Ev.st, Ev.t) ELSE S!Turn(Ev.pool, Ev.st, Ev.t))
         Want == TLCEval(S!Conjugated(T, Ev.plain.e, n)) IN
     /\ S!Like(Ev.after.e, Want, 25) /\ S!Like(Ev.before.e, Want, 25) /\ S!Like(Ev.turned.e, Want, 25)
Dot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
Orthogonal ==
  /\ IsEvent("Orthogonal") /\ UNCHANGED <<c, set, B, U, H, drift>>
  /\ LET bad == Dot(Ev.z, Ev.y) # 0 IN Ev.rotate_err = bad /\ Ev.field_err = bad /\ Ev.overlap_err = bad
\* real numbers: the outer angles have to be full turns (a, g: quarter turns)
Turns ==
  /\ IsEvent("Turns") /\ UNCHANGED <<c, set, B, U, H, drift>>
  /\ LET bad == Ev.a % 4 # 0 \/ Ev.g % 4 # 0
         t == <<IF (Ev.a \div 4) % 2 = 0 THEN <<1, 0>> ELSE <<-1, 0>>, Ev.b, IF (Ev.g \div 4) % 2 = 0 THEN <<1, 0>> ELSE <<-1, 0>> >> IN
     /\ Ev.res_err = bad /\ Ev.overlap_err = bad /\ Ev.two_err = bad
     /\ S!Like(Ev.B.e, IF bad THEN Ev.B0.e ELSE S!Apply(S!Turn(Ev.pool, Ev.st, t), Ev.B0.e, Len(Ev.st), Ev.B0.c), Tol)
TNext == Orthogonal \/ Turns \/ Start \/ Rotate \/ Field \/ Read \/ Diag \/ Overlap \/ Wigner \/ Table \/ Pair \/ Covariant
TSpec == TInit /\ [][TNext]_vars
=============================================================================
