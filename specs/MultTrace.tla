------------------------------ MODULE MultTrace ------------------------------
(* Selections and matrix elements of the real classes, in units of the     *)
(* radial integral. Each element is <<value, is it different from zero,    *)
(* could it be told>>.                                                     *)
EXTENDS TraceBase
M == INSTANCE Mult
TInit == TrackInit /\ l = 1
Tol == 60
Near(x, y) == M!IAbs(x - y) <= Tol
Range(s) == {s[i] : i \in 1 .. Len(s)}
\* the selection that holds for component q, where q may be any integer
Fits(rule(_), qs, k) == \A q \in (-k - 1) .. (k + 1) : q \in Range(qs) => rule(q)
\* nothing that is there is left out, nothing forbidden is there
Judge(e, i, want, back, rule(_), k) ==
  LET c == e.c[i]
      v == e.val[i]
      w == e.rev[i]
      d == M!Q2(e.r, c)
      q == IF d % 2 = 0 THEN d \div 2 ELSE 99
      allowed == IF d % 2 = 0 THEN rule(q) ELSE FALSE IN
  /\ (v[3] => (/\ Near(v[1], want) /\ (v[2] => (allowed /\ e.rule[i] /\ q \in Range(e.ruleq[i])))))
  /\ (w[3] => (/\ Near(w[1], back) /\ (w[2] => (allowed /\ e.rule[i]))))
  \* Hermitian
  /\ ((v[3] /\ w[3]) => M!IAbs(v[1] - M!Sgn(q) * w[1]) <= 1)
  \* selected for the difference of the projections or not at all
  /\ (\A x \in Range(e.ruleq[i]) : x = q) /\ (e.rule[i] => allowed)
  /\ (e.rule[i] <=> (e.ruleq[i] # <<>>))
  /\ (M!IAbs(want) > Tol => e.rule[i])
Pole == /\ IsEvent("Pole")
        /\ LET S2 == TLCEval(Ev.s2)
               k == TLCEval(Ev.k)
               r == TLCEval(Ev.r) IN
           \A i \in 1 .. Len(Ev.c) : LET c == Ev.c[i] IN
             Judge(Ev, i, M!Pole(S2, k, r, c), M!Pole(S2, k, c, r), LAMBDA q : M!PoleRule(k, q, r, c), k)
Moment == /\ IsEvent("Moment")
          /\ LET S2 == TLCEval(Ev.s2)
                 r == TLCEval(Ev.r) IN
             \A i \in 1 .. Len(Ev.c) : LET c == Ev.c[i] IN
               Judge(Ev, i, M!Moment(S2, r, c), M!Moment(S2, c, r), LAMBDA q : M!MomentRule(q, r, c), 1)
Mixed == IsEvent("Mixed") /\ Ev.asked = Ev.refused
TNext == Pole \/ Moment \/ Mixed
TSpec == TInit /\ [][TNext]_l
=============================================================================
