--------------------------- MODULE OneBasisTrace ---------------------------
(* Requests to a real SystemOne: refused or answered with exactly the      *)
(* states and a complete orthonormal set of vectors with the symmetry.     *)
EXTENDS TraceBase
S == INSTANCE OneBasis
vars == <<l>>
TInit == TrackInit /\ l = 1
Near(a, b, t) == S!IAbs(a[1] - b[1]) <= t /\ S!IAbs(a[2] - b[2]) <= t
Request ==
  /\ IsEvent("Request")
  /\ LET ok == S!RotOK(Ev.q)
         \* a reflection that does not fit to the momenta asked for before is refused and forgotten
         q == IF Ev.q.rotfirst /\ ~ok THEN [Ev.q EXCEPT !.refl = 0] ELSE Ev.q
         no == S!Refused(q)
         want == TLCEval(S!Occurring(q))
         n == Len(Ev.st)
         k == Ev.B.c
         B == Ev.B.e
         row(s) == CHOOSE i \in 1 .. n : Ev.st[i] = s
         I == TLCEval(S!MMul(S!Adj(B, n, k), B, k, n, k))
         image(i, c) == LET s == Ev.st[i] IN \* coefficient of the reflected vector at state i
           IF S!Art(s) THEN B[i][c] ELSE IF s[4] = 0 THEN S!Scale(q.refl, B[i][c])
           ELSE LET p == S!Mirror(s) IN S!CMul(S!Phase(p), B[row(p)][c])
         energies(c) == {S!LevelEnergy(Ev.st[i]) : i \in {x \in 1 .. n : B[x][c] # S!Z}} IN
     /\ Ev.refl_err = (Ev.q.rotfirst /\ ~ok) /\ Ev.rot_err = (~Ev.q.rotfirst /\ ~ok)
     /\ Ev.st_err = no /\ Ev.B_err = no /\ Ev.H_err = no
     /\ ~no =>
        /\ {Ev.st[i] : i \in 1 .. n} = want /\ n = Cardinality(want)
        /\ Len(B) = n /\ k = S!Vectors(q, S!Basis(q)) /\ Ev.H.r = k /\ Ev.H.c = k
        /\ \A i, j \in 1 .. k : Near(I[i][j], IF i = j THEN <<1000000, 0>> ELSE S!Z, 3000)
        /\ q.refl # 0 => \A c \in 1 .. k : (\A i \in 1 .. n :
              IF S!Art(Ev.st[i]) THEN TRUE ELSE Near(image(i, c), S!Scale(q.refl, B[i][c]), 2))
        /\ \A c \in 1 .. k : energies(c) = {Ev.H.e[c][c][1] \div 1000}
        /\ \A i, j \in 1 .. k : (i # j => Ev.H.e[i][j] = S!Z) /\ (i = j => Ev.H.e[i][j][2] = 0)
TNext == Request
TSpec == TInit /\ [][TNext]_vars
=============================================================================
