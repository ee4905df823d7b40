----------------------------- MODULE MatFileMC -----------------------------
(* Reading what was written gives the same matrix; no cut-off file is      *)
(* readable; the first damaged structural byte is noticed or harmless.     *)
EXTENDS MatFile, TLC, Json, Randomization
VARIABLES m, csr, cplx
One == <<0, 0, 0, 0, 0, 0, 240, 63>>
Odd == <<1, 255, 128, 10, 13, 26, 240, 191>>
Trips(r, c, row) ==
  LET S == {<<i, j>> : i \in 0 .. r - 1, j \in 0 .. c - 1}
      Lt(a, b) == IF row THEN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
                  ELSE a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]) IN
  {LET q == SetToSortSeq(P, Lt) IN [i \in 1 .. Len(q) |-> <<q[i][1], q[i][2],
        IF (q[i][1] + q[i][2]) % 2 = 0 THEN One ELSE Odd, IF cplx /\ i = 1 THEN Odd ELSE ZeroV>>] : P \in SUBSET S}
Init == /\ csr \in BOOLEAN /\ cplx \in BOOLEAN
        /\ \E nb \in 0 .. 2, nc \in 0 .. 2 : \E te \in Trips(nb, nb, csr), tb \in Trips(nc, nb, csr) :
             m = [e |-> [r |-> nb, c |-> nb, t |-> te], b |-> [r |-> nc, c |-> nb, t |-> tb]]
Spec == Init /\ [][FALSE]_<<m, csr, cplx>>
F == Enc(m, csr, cplx)
RoundTrip == LET x == Read(F, cplx) IN x.ok /\ SameMatrix(x.e, m.e) /\ SameMatrix(x.b, m.b)
                 /\ x.end = Len(F) + 1 /\ x.e.csr = csr
NoPrefix == \A n \in {0, 1, 3, Len(F) \div 2, Len(F) - 8, Len(F) - 1} : ~Read(SubSeq(F, 1, n), cplx).ok
OtherType == ~Read(F, ~cplx).ok
\* two matrices that are each well-formed but do not belong together
Wider(x) == [x EXCEPT !.c = @ + 1]
Higher(x) == [x EXCEPT !.r = @ + 1]
Mixed == IF m.e.r + m.b.r > 2 THEN {} ELSE
         {EncMatrix(m.e, csr, cplx) \o EncMatrix(m.b, csr, ~cplx), EncMatrix(m.e, csr, ~cplx) \o EncMatrix(m.b, csr, cplx),
          EncMatrix(Wider(m.e), csr, cplx) \o EncMatrix(m.b, csr, cplx), EncMatrix(Higher(m.e), csr, cplx) \o EncMatrix(m.b, csr, cplx),
          EncMatrix(m.e, csr, cplx) \o EncMatrix(Wider(m.b), csr, cplx)}
         \ {F}
Together == \A f \in Mixed : ~Read(f, cplx).ok /\ ~Read(f, ~cplx).ok
Emit == /\ PrintT("@@BEHAVIOUR@@" \o ToJson([f |-> F, csr |-> csr, cplx |-> cplx, mixed |-> FALSE]))
        /\ \A f \in Mixed : PrintT("@@BEHAVIOUR@@" \o ToJson([f |-> f, csr |-> csr, cplx |-> cplx, mixed |-> TRUE]))
=============================================================================
