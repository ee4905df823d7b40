------------------------------ MODULE MultMC ------------------------------
(* The operators obey the selection rules, are Hermitian and spherical     *)
(* tensors, for all pairs of states up to Lmax.                            *)
EXTENDS Mult
CONSTANTS Lmax, Kmax, WrongRule
VARIABLES S2, r, c, k
vars == <<S2, r, c, k>>
All(s) == {x \in States(s, Lmax) : Valid(s, x)}
Init == S2 \in 0 .. 2 /\ r = <<>> /\ c = <<>> /\ k = 0
Next == r = <<>> /\ S2' = S2 /\ k' \in 0 .. Kmax /\ r' \in All(S2) /\ c' \in All(S2)
Spec == Init /\ [][Next]_vars
Tiny == 40
q == Q2(r, c) \div 2
v == Pole(S2, k, r, c)
w == Moment(S2, r, c)
Rule == IF WrongRule THEN PoleRule(k, q, r, c) /\ IAbs(r[3] - c[3]) < 2 * k ELSE PoleRule(k, q, r, c)
Rules == r = <<>> \/ ((IAbs(v) > Tiny => Rule) /\ (IAbs(w) > Tiny => MomentRule(q, r, c)))
Hermitian == r = <<>> \/ (/\ IAbs(v - Sgn(q) * Pole(S2, k, c, r)) <= Tiny /\ IAbs(w - Sgn(q) * Moment(S2, c, r)) <= Tiny)
\* the operator is a vector / tensor under the total angular momentum: [J-, T_q] ~ T_(q-1)
Raise(x) == [x EXCEPT ![4] = @ + 2]
Lower(x) == [x EXCEPT ![4] = @ - 2]
Coef(n4) == IF n4 <= 0 THEN 0 ELSE Over(IRoot(n4), 2)
Tensor == r = <<>> \/ q >= k \/ q < -k \/
  LET L(T(_, _), kk) == 
        LET a == IF r[4] < r[3] THEN Mul(Coef((r[3] - r[4]) * (r[3] + r[4] + 2)), T(Raise(r), c)) ELSE 0
            b == IF c[4] > -c[3] THEN Mul(Coef((c[3] + c[4]) * (c[3] - c[4] + 2)), T(r, Lower(c))) ELSE 0 IN a - b IN
  IAbs(L(LAMBDA x, y : Pole(S2, k, x, y), k) - Mul(IRoot((k + q + 1) * (k - q)), v)) <= 100
Inv == Rules /\ Hermitian /\ Tensor
=============================================================================
