------------------------------ MODULE SysTrace ------------------------------
(* A history of a real SystemBase compared with the model of module Sys:   *)
(* refusals, answers, and after every operation what copies of both        *)
(* systems answer when asked for states, basis vectors and Hamiltonian.    *)
EXTENDS TraceBase
S == INSTANCE Sys
\* ss: the two systems; free: the history went beyond the model
VARIABLES c, ss, free
vars == <<l, c, ss, free>>
TInit == TrackInit /\ l = 1 /\ c = <<>> /\ ss = <<>> /\ free = FALSE
Start == /\ IsEvent("Start")
         /\ c' = [pool |-> Ev.cfg.pool, sys |-> Ev.cfg.sys, V |-> Ev.cfg.V, W |-> Ev.cfg.W, order |-> Ev.order]
         /\ ss' = [i \in 1 .. 2 |-> S!New(i, Ev.cfg.sys[i].ms)] /\ free' = FALSE
INear(a, b, t) == a - b <= t /\ b - a <= t
Reals(s, A, r) == Len(r) = Len(A) /\ \A i \in 1 .. Len(A) : INear(A[i], r[i], IF s.mode = "diag" THEN 40 ELSE 0)
\* the answer r to question k of (built) system s
Answer(s, o, k, a, r) ==
  CASE k \in {"States", "MultiIndex"} -> r = s.st
    [] k = "NumStates" -> r = Len(s.st)
    [] k = "NumVec" -> r = s.B.c
    [] k = "Basis" -> r = S!BMilli(s)
    [] k = "Ham" -> r = S!HMilli(s)
    [] k = "Overlap" -> Reals(s, S!OverlapM(s, S!Present(s, a)), r)
    [] k = "OverlapRot" -> Reals(s, S!OverlapM(s, S!Present(s, [i \in 1 .. Len(a) |-> IF S!Where(s.st, a[i]) = 0 THEN 0 ELSE S!Refl(c, a[i])])), r)
    [] k = "Wild" -> Reals(s, S!OverlapM(s, S!WildRows(c, s, a)), r)
    [] k = "OverlapIdx" -> Reals(s, S!OverlapM(s, [i \in 1 .. Len(a) |-> a[i] + 1]), r)
    [] k = "Main" -> /\ Len(r) = s.B.c
                     /\ \A i \in 1 .. Len(r) : LET p == S!Where(s.st, r[i]) IN
                          p > 0 /\ \A j \in 1 .. s.B.r : S!Abs2(s.B.e[j][i]) <= S!Abs2(s.B.e[p][i]) + (IF s.mode = "diag" THEN 20000 ELSE 0)
    [] k = "StateIdx" -> r = [i \in 1 .. Len(a) |-> S!Where(s.st, a[i]) - 1]
    [] k = "VecIdx" -> (LET is == [i \in 1 .. Len(a) |-> S!Where(s.st, a[i])] IN
                        IF s.mode = "diag" THEN Len(r) = Len(a)
                        ELSE IF Len(a) = 1 THEN IF S!RowNorm(s.B, is[1]) = 0 THEN r[1] < s.B.c ELSE S!VecOf(s, is[1], r[1])
                        ELSE S!VecsOf(s, is, r))
    [] k = "Entry" -> (LET i == S!Where(s.st, a[1])
                           j == S!Where(s.st, a[2]) IN
                       IF s.mode = "diag" THEN S!Near(S!MMul4(S!MMul3(S!Rows(s.B, <<i>>), s.H), S!Dag(S!Rows(s.B, <<j>>))).e[1][1], r, 400)
                       ELSE LET x == S!Entry(s, i, j) IN r = <<1000 * x[1], 1000 * x[2]>>)
    [] k = "Connect" -> IF s.mode = "diag" THEN TRUE ELSE IF o.mode = "diag" THEN TRUE ELSE IF S!Max(s.B) > 6 THEN TRUE ELSE IF S!Max(o.B) > 6 THEN TRUE ELSE S!Connected(s, o, a, r[1], r[2])
    [] OTHER -> r = "ok"
All(s, a) == \A i \in 1 .. Len(a) : S!Where(s.st, a[i]) > 0
\* refusals that the answer itself causes
Answerable(s, k, a) ==
  CASE k = "StateIdx" -> All(s, a)
    [] k = "VecIdx" -> All(s, a) /\ Len(a) <= s.B.c /\ Cardinality(S!Range(a)) = Len(a)
    [] k = "Entry" -> All(s, SubSeq(a, 1, 2))
    [] k = "OverlapIdx" -> \A i \in 1 .. Len(a) : a[i] < s.B.r
    [] k = "Main" -> s.mode = "diag" \/ \A i \in 1 .. s.B.c : S!ColNorm(s.B, i) > 0
    [] OTHER -> TRUE
\* looking for vectors of several states may fail
\* (a vector that rounds to nothing has some main state or none)
MayFail(s, k, a) == IF k = "Main" /\ s.mode = "diag" THEN TRUE ELSE IF k # "VecIdx" \/ ~All(s, a) THEN FALSE ELSE IF Len(a) > 1 THEN TRUE ELSE S!RowNorm(s.B, S!Where(s.st, a[1])) = 0
Kinds == S!Settings \cup S!BasisQueries \cup {"BuildI", "BuildH", "Ham", "Entry", "Connect", "Constrain", "Join", "SetEntry", "AddEntry", "Canon",
          "Rotate", "Diag", "Forget", "Unit", "Copy", "Assign"}
Unsure(s) == s.mode = "diag" /\ s.built /\ ~s.dead /\ S!Pending(s)
     /\ (\/ \E k \in 1 .. s.B.c : S!EnergyUnsure(s, s.H.e[k][k][1])
         \/ S!BuildB(c, s, TRUE) # S!BuildB(c, s, FALSE))
\* what the copies say
Seen(s, p) ==
  LET b == S!BuildB(c, s, FALSE)
      h == S!BuildH(c, s, FALSE) IN
  /\ p.st_err = ~b.ok /\ p.B_err = ~b.ok /\ p.H_err = ~h.ok /\ p.BH_err = ~h.ok
  /\ b.ok => (p.st = b.s.st /\ p.B = S!BMilli(b.s))
  /\ h.ok => (p.H = S!HMilli(h.s) /\ p.BH = S!BMilli(h.s))
DiagOK(s) == S!Max(s.B) <= 2 /\ S!Max(s.H) <= 40
Op == /\ More /\ Ev.event \in Kinds /\ l' = l + 1 /\ ~free
      /\ LET x == Ev.s
             k == Ev.event
             s == ss[x]
             e == S!Effect(c, s, ss[3 - x], k, Ev.a, FALSE)
             ok == e.ok /\ (k \in S!BasisQueries \cup {"Entry"} => Answerable(e.s, k, Ev.a))
             mix == k = "Diag" /\ e.ok /\ ~S!Diagonal(e.s.H)
             t == IF mix THEN [e.s EXCEPT !.B = Ev.pk[x].BH, !.H = Ev.pk[x].H, !.mode = "diag", !.trans = TRUE]
                  ELSE IF k = "Unit" /\ ok THEN S!Unitarize(e.s, Ev.res) ELSE e.s
             two == IF x = 1 THEN <<t, e.o>> ELSE <<e.o, t>>
             \* the code may or may not store zeros
             hole == k = "Main" /\ e.ok /\ \E i \in 1 .. e.s.B.c : S!ColNorm(e.s.B, i) = 0 IN
         IF e.skip \/ Unsure(s) \/ (k \in {"Connect", "Join"} /\ Unsure(ss[3 - x])) \/ (mix /\ ~DiagOK(e.s))
         THEN free' = TRUE /\ UNCHANGED <<c, ss>>
         ELSE /\ IF hole \/ Ev.res_err = ~ok THEN TRUE ELSE IF e.ok /\ Ev.res_err THEN MayFail(e.s, k, Ev.a) ELSE FALSE
              /\ (ok /\ ~Ev.res_err /\ ~hole) => IF k = "Unit" THEN /\ Len(Ev.res) = e.s.B.c /\ Cardinality(S!Range(Ev.res)) = e.s.B.c
                                                           /\ \A i \in S!Range(Ev.res) : i > 100
                                        ELSE Answer(e.s, e.o, k, Ev.a, Ev.res)
              /\ mix => (~Ev.pk[x].H_err /\ S!Diagonalised(e.s, Ev.pk[x].BH, Ev.pk[x].H))
              /\ IF Unsure(two[1]) \/ Unsure(two[2]) \/ S!Big(two[1]) \/ S!Big(two[2]) THEN free' = TRUE
                 ELSE Seen(two[1], Ev.pk[1]) /\ Seen(two[2], Ev.pk[2]) /\ UNCHANGED free
              /\ ss' = two /\ UNCHANGED c
Free == More /\ Ev.event \in Kinds /\ free /\ l' = l + 1 /\ UNCHANGED <<c, ss, free>>
TNext == Start \/ Op \/ Free
TSpec == TInit /\ [][TNext]_vars
=============================================================================
