------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* What the calculation engine announces on its output. A calculation has   *)
(* parts (atom 1, atom 2 or both in one basis, then the pair), and every    *)
(* part announces its type, the size of its basis, the file with its        *)
(* states, the number of matrices, and then for every matrix its dimension  *)
(* and its file, in the order the threads get them done.                    *)
(*   q: the configuration (halves doubled, fields and distances in 1/1000)  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
NA == 32767
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Parts(q) ==
  IF q.same THEN (IF q.a1 /\ q.a2 THEN <<3>> \o (IF q.r THEN <<2>> ELSE <<>>) ELSE <<>>)
  ELSE (IF q.a1 THEN <<0>> ELSE <<>>) \o (IF q.a2 THEN <<1>> ELSE <<>>) \o (IF q.a1 /\ q.a2 /\ q.r THEN <<2>> ELSE <<>>)
\* cannot be calculated
Unusable(q) == (q.same /\ q.sp1 # q.sp2) \/ (q.real /\ q.fy /\ Parts(q) # <<>>) \/ (q.steps < 1 /\ Parts(q) # <<>> /\ (~q.const \/ (q.rmin # q.rmax /\ \E k \in 1 .. Len(Parts(q)) : Parts(q)[k] = 2)))
Const(q) == q.const
StepsOne(q) == IF Const(q) THEN 1 ELSE q.steps
StepsTwo(q) == IF q.rmin = q.rmax /\ StepsOne(q) = 1 THEN 1 ELSE q.steps
\* --- states of an atom; n, l, 2j, 2m ---
Near(x, y, d) == d < 0 \/ Abs(x - y) <= d
Fine(k) == IF k = 0 THEN {1} ELSE {2 * k - 1, 2 * k + 1}
Levels(q, s, n, k) ==
  {x \in {<<n, k, j, m>> : j \in Fine(k), m \in {m \in -(2 * k + 1) .. 2 * k + 1 : m % 2 = 1}} :
     Abs(x[4]) <= x[3] /\ Near(x[3], s[3], q.dj) /\ Near(x[4], s[4], q.dm)}
Neighbours(q, s) ==
  UNION {UNION {Levels(q, s, n, k) : k \in {k \in 0 .. n - 1 : Near(k, s[2], q.dl)}} : n \in Max(0, s[1] - q.dn) .. s[1] + q.dn}
Want(q, part) == CASE part = 0 -> Neighbours(q, q.s1) [] part = 1 -> Neighbours(q, q.s2) [] part = 3 -> Neighbours(q, q.s1) \cup Neighbours(q, q.s2)
\* the table of states: numbered, no state twice
Numbered(t) == \A i \in 1 .. Len(t) : t[i][1] = i - 1
Set(t) == {t[i][2] : i \in 1 .. Len(t)}
TableOne(q, part, t) ==
  LET w == Want(q, part) IN
  /\ Numbered(t) /\ Cardinality(Set(t)) = Len(t)
  /\ Set(t) \subseteq w
  /\ (q.deltae < 0 => Set(t) = w)
  \* (the energies are measured from the initial state, or from between the two)
  /\ (part = 0 => q.s1 \in Set(t) \/ q.s1 \notin w) /\ (part = 1 => q.s2 \in Set(t) \/ q.s2 \notin w)
\* states of the pair: products of states near an initial state in every number
Kept(q, t, ini) == {x \in Set(t) : /\ (\E s \in ini : Near(x[1], s[1], q.pn)) /\ (\E s \in ini : Near(x[2], s[2], q.pl))
                                   /\ (\E s \in ini : Near(x[3], s[3], q.pj)) /\ (\E s \in ini : Near(x[4], s[4], q.pm))}
TableTwo(q, t, t1, t2) ==
  LET k1 == Kept(q, t1, IF q.same THEN {q.s1, q.s2} ELSE {q.s1})
      k2 == IF q.same THEN k1 ELSE Kept(q, t2, {q.s2}) IN
  /\ Numbered(t) /\ Len(t) = Cardinality(k1) * Cardinality(k2)
  /\ {<<t[i][2], t[i][3]>> : i \in 1 .. Len(t)} = k1 \X k2
\* --- blocks of the pair's matrices ---
Opt(e, o) == IF ~e /\ ~o THEN {NA} ELSE (IF e THEN {1} ELSE {}) \cup (IF o THEN {-1} ELSE {})
Rot(q, t) ==
  IF ~q.consm THEN {NA}
  ELSE IF ~q.sametrafo THEN {(t[i][2][4] + t[i][3][4]) \div 2 : i \in 1 .. Len(t)}
  ELSE IF ~q.zerotheta THEN -((q.s1[3] + q.s2[3]) \div 2) .. (q.s1[3] + q.s2[3]) \div 2
  ELSE {(q.s1[4] + q.s2[4]) \div 2}
Blocks(q, t) ==
  LET twice == q.sametrafo /\ q.s1 = q.s2
      par == IF (q.s1[2] + q.s2[2]) % 2 = 0 THEN 1 ELSE -1 IN
  {b \in {<<i, p, f, IF f = NA \/ r = NA THEN r ELSE Abs(r)>> : i \in Opt(q.inve, q.invo), p \in Opt(q.pere, q.pero), f \in Opt(q.refe, q.refo), r \in Rot(q, t)} :
     /\ ~(twice /\ (b[1] = 1 \/ b[2] = 1))
     /\ (b[1] # NA /\ b[2] # NA /\ q.sametrafo => b[1] * b[2] = par)}
\* reflection takes states of the blocks to states that the basis lacks (found when the pair is built)
Mirrorless(q, t1, t2) ==
  LET k1 == Kept(q, t1, IF q.same THEN {q.s1, q.s2} ELSE {q.s1})
      k2 == IF q.same THEN k1 ELSE Kept(q, t2, {q.s2})
      mirror(x) == [x EXCEPT ![4] = -x[4]]
      used(m) == IF ~q.consm \/ ~q.sametrafo THEN TRUE ELSE IF ~q.zerotheta THEN Abs(m) <= (q.s1[3] + q.s2[3]) \div 2 ELSE Abs(m) = Abs((q.s1[4] + q.s2[4]) \div 2) IN
  /\ q.refe \/ q.refo
  /\ Blocks([q EXCEPT !.consm = FALSE], <<>>) # {}
  /\ \E x \in k1, y \in k2 : used((x[4] + y[4]) \div 2) /\ (mirror(x) \notin k1 \/ mirror(y) \notin k2)
\* the value of a quantity at a step of n
At(lo, hi, step, n) == IF n <= 1 THEN lo ELSE lo + ((hi - lo) * step) \div (n - 1)
Close(x, y) == Abs(x - y) <= 2
=============================================================================
