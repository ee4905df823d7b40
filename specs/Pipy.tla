-------------------------------- MODULE Pipy --------------------------------
(* What a calculation of the Python back end (pipy_thread.py, pipy/) means:  *)
(* the parameters chosen in the interface determine the symmetry blocks, the *)
(* steps, and for every step and block one system - atoms with restrictions, *)
(* fields and numerical method, and for pairs distance, angle, order, window *)
(* and symmetries. All half-integers are doubled.                            *)
(*   bid 0/1: field map of atom 1/2, 3: of both in one basis, 2: pair        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
S1(p) == [sp |-> p.sp1, n |-> p.q1[1], l |-> p.q1[2], j |-> p.q1[3], m |-> p.q1[4]]
S2(p) == [sp |-> p.sp2, n |-> p.q2[1], l |-> p.q2[2], j |-> p.q2[3], m |-> p.q2[4]]
Pairs(p) == p.bid = 2
\* the states a calculation of atom i starts from
Starts(p, i) == CASE p.bid = 0 -> <<S1(p)>>
                  [] p.bid = 1 -> <<S2(p)>>
                  [] p.bid = 3 -> <<S1(p), S2(p)>>
                  [] OTHER -> IF p.same THEN <<S1(p), S2(p)>> ELSE IF i = 1 THEN <<S1(p)>> ELSE <<S2(p)>>
\* the stand-in's energies: field-free, and the shift of all states of an atom in fields
Level(s) == 16 * s.n + (IF s.sp = "Cs" THEN 7 ELSE 5) * s.l + s.j
Shift(E, B) == E[1] + (2 * E[2]) + (3 * E[3]) + (5 * B[1]) + (7 * B[2]) + (9 * B[3])
Range(vals, d, unit) == IF d < 0 THEN <<>> ELSE <<SetMin(vals) - (unit * d), SetMax(vals) + (unit * d)>>
Of(starts, Q(_)) == {Q(starts[k]) : k \in DOMAIN starts}
QN(s) == s.n
QL(s) == s.l
QJ(s) == s.j
QM(s) == s.m
Real(p) == p.minE[2] = 0 /\ p.maxE[2] = 0 /\ p.minB[2] = 0 /\ p.maxB[2] = 0
Steps(p) == IF p.minE = p.maxE /\ p.minB = p.maxB /\ (Pairs(p) => p.minR = p.maxR) THEN 1 ELSE p.steps
At(lo, hi, n, k) == IF n = 1 THEN lo ELSE lo + (((hi - lo) * k) \div (n - 1))
At3(lo, hi, n, k) == <<At(lo[1], hi[1], n, k), At(lo[2], hi[2], n, k), At(lo[3], hi[3], n, k)>>
EAt(p, k) == At3(p.minE, p.maxE, Steps(p), k)
BAt(p, k) == At3(p.minB, p.maxB, Steps(p), k)
RAt(p, k) == At(p.minR, p.maxR, Steps(p), k)
\* the atom of step k
Atom(p, i, k) ==
  LET st == Starts(p, i) IN
  [sp |-> st[1].sp, meth |-> IF p.meth = 0 THEN "WHITTAKER" ELSE "NUMEROV", real |-> Real(p),
   n |-> Range(Of(st, QN), p.dN, 1), l |-> Range(Of(st, QL), p.dL, 1),
   j |-> Range(Of(st, QJ), p.dJ, 2), m |-> Range(Of(st, QM), p.dM, 2),
   win |-> Range(Of(st, Level), p.dE, 1), mom |-> <<>>, E |-> EAt(p, k), B |-> BAt(p, k), dia |-> p.dia]
\* ---- symmetry blocks
None == ""
Choice(c) == IF c = <<>> THEN {None} ELSE {c[k] : k \in DOMAIN c}
Spin(sp) == IF sp = "Sr1" THEN 0 ELSE IF sp = "Sr3" THEN 2 ELSE 1
To(j) == {x \in -j..j : (x + j) % 2 = 0}   \* -j, -j+1, ..., j (doubled)
Ms(p, s) == IF p.dM >= 0 THEN {s.m + (2 * x) : x \in -p.dM..p.dM}
            ELSE IF p.dJ >= 0 THEN To(s.j + (2 * p.dJ))
            ELSE To((2 * s.l) + (2 * p.dL) + Spin(s.sp))
AllMomenta(p) ==
  IF ~p.samet THEN {(a + b) \div 2 : a \in Ms(p, S1(p)), b \in Ms(p, S2(p))}
  ELSE IF p.zero THEN {(S1(p).m + S2(p).m) \div 2}
  ELSE LET J == (S1(p).j + S2(p).j) \div 2 IN -J..J
Momenta(p, ref) == IF ~p.consM THEN {<<>>}
                   ELSE {<<IF ref = None THEN M ELSE Abs(M)>> : M \in AllMomenta(p)}
Wanted(p, inv, per) ==
  p.samet => /\ ~((per = "E" \/ inv = "E") /\ S1(p) = S2(p))
             /\ (inv # None /\ per # None) => ((inv = per) <=> ((S1(p).l + S2(p).l) % 2 = 0))
Blocks(p) ==
  IF ~Pairs(p) THEN {[inv |-> None, per |-> None, ref |-> None, mom |-> <<>>]}
  ELSE UNION {LET i == x[1] q == x[2] r == x[3] IN
              IF Wanted(p, i, q) THEN {[inv |-> i, per |-> q, ref |-> r, mom |-> M] : M \in Momenta(p, r)} ELSE {}
              : x \in Choice(p.inv) \X Choice(p.per) \X Choice(p.ref)}
\* ---- the system of step k and block b
PairLevel(p) == Level(S1(p)) + Level(S2(p)) + (2 * Shift(EAt(p, 0), BAt(p, 0)))
System(p, k, b) ==
  IF ~Pairs(p) THEN Atom(p, 1, k)
  ELSE [a |-> Atom(p, 1, k), b |-> Atom(p, IF p.same THEN 1 ELSE 2, k), meth |-> Atom(p, 1, k).meth, real |-> Real(p),
        win |-> Range({PairLevel(p)}, p.dEP, 1), norm |-> 50, angle |-> 0, dist |-> RAt(p, k), order |-> p.order,
        inv |-> b.inv, per |-> b.per, ref |-> b.ref, mom |-> b.mom]
\* ---- its states (the stand-in knows orbital momenta up to 2)
In(x, r) == r = <<>> \/ (r[1] <= x /\ x <= r[2])
Orbits(a) == {x \in (a.n[1]..a.n[2]) \X (0..2) \X (0..6) :
              /\ x[1] >= 1 /\ x[2] < x[1] /\ In(x[2], a.l)
              /\ x[3] >= Abs((2 * x[2]) - Spin(a.sp)) /\ x[3] <= (2 * x[2]) + Spin(a.sp)
              /\ (x[3] + Spin(a.sp)) % 2 = 0 /\ In(x[3], a.j)}
States(a) == UNION {{[sp |-> a.sp, n |-> x[1], l |-> x[2], j |-> x[3], m |-> m] : m \in {m \in To(x[3]) : In(m, a.m)}} : x \in Orbits(a)}
\* least energy and number of the states of a pair, per momentum of the first atom
Mset(S) == {s.m : s \in S}
Least(S, m) == SetMin({Level(s) : s \in {s \in S : s.m = m}})
Count(S, m) == Cardinality({s \in S : s.m = m})
MPairs(S, T, mom) == {x \in Mset(S) \X Mset(T) : mom = <<>> \/ x[1] + x[2] = 2 * mom[1]}
RECURSIVE Sum(_, _)
Sum(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN F(x) + Sum(F, S \ {x})
Size(y) == IF "a" \in DOMAIN y
           THEN LET S == States(y.a) T == States(y.b) P == MPairs(S, T, y.mom)
                    C(x) == Count(S, x[1]) * Count(T, x[2]) IN Sum(C, P)
           ELSE Cardinality(States(y))
Lowest(y) == IF "a" \in DOMAIN y
             THEN LET S == States(y.a) T == States(y.b) P == MPairs(S, T, y.mom)
                  IN SetMin({Least(S, x[1]) + Least(T, x[2]) : x \in P}) + Shift(y.a.E, y.a.B) + Shift(y.b.E, y.b.B)
             ELSE SetMin({Level(s) : s \in States(y)}) + Shift(y.E, y.B)
\* the energy all energies of the calculation are relative to (doubled)
Zero(p) == IF Pairs(p) THEN 2 * PairLevel(p)
           ELSE LET st == Starts(p, 1) IN IF Len(st) = 1 THEN 2 * Level(st[1]) ELSE Level(st[1]) + Level(st[2])
=============================================================================
