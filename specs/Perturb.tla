------------------------------ MODULE Perturb ------------------------------
(***************************************************************************)
(* Perturbation theory for pairs of atoms that interact as dipoles.        *)
(* An atom's state is [sp |-> species, s |-> 2 S, q |-> <<n, l, 2j, 2m>>], *)
(* a pair is a sequence of two of them. The interatomic axis is given by   *)
(* integers ax = <<x, z>> with x^2 + z^2 = 25 (the axis is ax/5).          *)
(*                                                                         *)
(* Dipole elements are T * sign * root, root = sqrt(2) for a component +-1 *)
(* and 1 otherwise, sign = -1 for component -1; so the interaction is an   *)
(* integer in units of 1/25.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Abs(x) == IF x < 0 THEN -x ELSE x
\* the states of an atom that a dipole reaches, with n at most dn outside lo .. hi
Js(l, s) == {j \in Abs(2 * l - s) .. 2 * l + s : (j - 2 * l - s) % 2 = 0}
Coupled(a, b) == /\ a.sp = b.sp /\ a.s = b.s /\ Abs(a.q[2] - b.q[2]) = 1
                 /\ Abs(a.q[3] - b.q[3]) <= 2 /\ a.q[3] + b.q[3] > 0 /\ Abs(a.q[4] - b.q[4]) <= 2
Of(a, n, l, j) == {[a EXCEPT !.q = <<n, l, j, m>>] : m \in {x \in a.q[4] - 2 .. a.q[4] + 2 : Abs(x) <= j /\ (x + j) % 2 = 0}}
Reached(a, lo, hi) ==
   {b \in UNION {UNION {UNION {Of(a, n, l, j) : j \in Js(l, a.s)} : n \in {x \in lo .. hi : x > l}}
                 : l \in {x \in {a.q[2] - 1, a.q[2] + 1} : x >= 0}}
      : Coupled(a, b)}
Values == <<1, -1, 2, -2>>
T(a, b, salt) == LET p == a.q
                     r == b.q IN
   Values[1 + ((7 * (p[1] + r[1]) + 5 * p[2] * r[2] + 3 * p[3] * r[3] + p[4] * r[4] + p[4] + r[4] + salt + 40000) % 4)]
\* the dipole element <a|d|b> without its root, and the component
Comp(a, b) == (a.q[4] - b.q[4]) \div 2
Dip(a, b, salt) == IF ~Coupled(a, b) THEN 0 ELSE (IF Comp(a, b) = -1 THEN -1 ELSE 1) * T(a, b, salt)
\* weight of the components, roots included
Weight(q1, q2, ax) ==
   CASE q1 = 0 /\ q2 = 0 -> 25 - 3 * ax[2] * ax[2]
     [] q1 * q2 = -1 -> 3 * ax[1] * ax[1] - 50
     [] q1 * q2 = 1 -> -3 * ax[1] * ax[1]
     [] q1 + q2 = 1 -> 3 * ax[1] * ax[2]
     [] q1 + q2 = -1 -> -3 * ax[1] * ax[2]
\* the interaction, <a|V|b> for pairs, in units of 1/25
V(a, b, ax, salt) ==
   IF ~Coupled(a[1], b[1]) \/ ~Coupled(a[2], b[2]) THEN 0
   ELSE Weight(Comp(a[1], b[1]), Comp(a[2], b[2]), ax) * Dip(a[1], b[1], salt) * Dip(a[2], b[2], salt)
\* level energies, such that a difference that matters divides 840 (in the driver as well)
Strong(sp) == sp \in {"Cs", "K", "Ca3"}
E1(a) == IF a.q[2] % 2 = 0 THEN 0 ELSE (IF Strong(a.sp) THEN 4 ELSE 2) + (((a.q[1] + a.q[3] + a.s) % 4) \div 2)
Energy(a) == E1(a[1]) + E1(a[2])
Pairs(a, b, lo1, hi1, lo2, hi2) ==
   {<<x, y>> : x \in {z \in Reached(a[1], lo1, hi1) : Coupled(z, b[1])}, y \in {z \in Reached(a[2], lo2, hi2) : Coupled(z, b[2])}}
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x
\* pairs that are virtually visited between a and b
Virtual(a, b, dn) == Pairs(a, b, Min2(a[1].q[1], b[1].q[1]) - dn, Max2(a[1].q[1], b[1].q[1]) + dn,
                                 Min2(a[2].q[1], b[2].q[1]) - dn, Max2(a[2].q[1], b[2].q[1]) + dn)
\* sums are in units of 1 / (625 * 840 * 2) and taken modulo a prime
P == 1000003
Second(a, b, vs, ax, salt) ==
   LET term(v) == ((V(a, v, ax, salt) * V(v, b, ax, salt)) % P)
                  * ((840 \div (Energy(a) - Energy(v))) + (840 \div (Energy(b) - Energy(v))))
   IN FoldSet(LAMBDA v, sum : (sum + (term(v) % P)) % P, 0, vs)
\* coefficient of a pair; of the coupling between pairs out of a set
C6(a, dn, ax, salt) == Second(a, a, Virtual(a, a, dn), ax, salt)
C6Matrix(set, a, b, dn, ax, salt) == Second(a, b, Virtual(a, b, dn) \ set, ax, salt)
C3(a, b, ax, salt) == IF a = b THEN 0 ELSE V(a, b, ax, salt)
=============================================================================
