--------------------------- MODULE TwoBasisTrace ---------------------------
(* Requests to a real SystemTwo: refused, or answered with exactly the     *)
(* products or an orthonormal basis of their symmetric part.               *)
EXTENDS TraceBase
S == INSTANCE TwoBasis
vars == <<l>>
TInit == TrackInit /\ l = 1
Near(a, b, t) == S!IAbs(a[1] - b[1]) <= t /\ S!IAbs(a[2] - b[2]) <= t
\* column c of the reported vectors
Column(e, c) == [p \in {e.st[i] : i \in {x \in 1 .. Len(e.st) : e.B.e[x][c] # S!Z}} |->
                   e.B.e[CHOOSE i \in 1 .. Len(e.st) : e.st[i] = p][c]]
Like(v, w) == \A p \in DOMAIN v \cup DOMAIN w : Near(S!At(v, p), S!At(w, p), 3)
Request ==
  /\ IsEvent("Request")
  /\ LET q0 == Ev.q
         q == [Ev.q EXCEPT !.rot = IF S!RotOK(q0) THEN @ ELSE IF q0.rotfirst THEN @ ELSE <<>>,
                           !.refl = IF S!RotOK(q0) THEN @ ELSE IF q0.rotfirst THEN 0 ELSE @,
                           !.pairs = IF S!TwicePairs(q0) THEN <<>> ELSE @] IN
     /\ Ev.rot_err = (~S!RotOK(q0) /\ ~q0.rotfirst) /\ Ev.refl_err = (~S!RotOK(q0) /\ q0.rotfirst)
     /\ Ev.pairs_err = S!TwicePairs(q0)
     /\ IF S!BadPairs(q) \/ S!Kept(q, q.one) = {} \/ S!Kept(q, q.two) = {} THEN Ev.st_err
        ELSE LET P == TLCEval(S!Conserving(q, S!Vectors(q)))
                 A == TLCEval(S!Conserving(q, S!OfList(q)))
                 V == TLCEval(P \cup A)
                 support == UNION {DOMAIN x.v : x \in P}
                 plain == S!Ops(q) = {}
                 dim == TLCEval(IF plain THEN Cardinality(V) ELSE S!Dim(q, V))
                 unsure == \/ \E p \in S!Chosen(q) : S!Close(q, S!Energy(q, p))
                           \/ ~plain /\ (S!Lonely(q) \/ S!Listed(q) \cap support # {})
                 no == S!Wrong(q) \/ S!Listed(q) \cap support # {} \/ dim = 0
                 n == Len(Ev.st)
                 k == Ev.B.c
                 cols == TLCEval([c \in 1 .. k |-> Column(Ev, c)])
                 coef(c) == [x \in V |-> S!Dot2(x.v, cols[c])]
             IN
             /\ (unsure \/ Ev.st_err = no) /\ (Ev.st_err = Ev.B_err) /\ (Ev.st_err = Ev.H_err)
             /\ IF Ev.st_err THEN TRUE ELSE
                  /\ Cardinality({Ev.st[i] : i \in 1 .. n}) = n /\ Len(Ev.B.e) = n
                  /\ Ev.H.r = k /\ Ev.H.c = k
                  /\ unsure \/ k = dim
                  /\ \A i, j \in 1 .. k : IF i = j THEN Ev.H.e[i][j][2] = 0 ELSE Ev.H.e[i][j] = S!Z
                  /\ \A i, j \in 1 .. k : IF i > j THEN TRUE ELSE Near(S!Dot2(cols[i], cols[j]), IF i = j THEN <<1000, 0>> ELSE S!Z, 4)
                  /\ \A c \in 1 .. k :
                       IF plain THEN \E x \in V : Like(x.v, cols[c]) /\ S!IAbs(x.e - Ev.H.e[c][c][1]) <= 3
                       ELSE LET f == TLCEval(coef(c)) IN
                            /\ S!Symmetric(q, cols[c])
                            /\ unsure \/ S!IAbs(S!SumIn(LAMBDA x : S!Norm2(f[x]), V) - 1000000) <= 12000
                            /\ \A x \in V : S!Norm2(f[x]) <= 400 \/ S!IAbs(x.e - Ev.H.e[c][c][1]) <= 3
\* the one-atom systems themselves cannot be had: of the states with m = 0 none has the mirror symmetry
Unusable ==
  /\ IsEvent("Unusable")
  /\ \E o \in {Ev.one, Ev.two} : o.kind # "plain" /\ (\E i \in 1 .. Len(o.ids) : Ev.pool[o.ids[i]][4] = 0)
TNext == Request \/ Unusable
TSpec == TInit /\ [][TNext]_vars
=============================================================================
