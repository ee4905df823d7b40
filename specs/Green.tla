------------------------------- MODULE Green -------------------------------
(***************************************************************************)
(* The Green tensors of two atoms, in free space and above a perfectly     *)
(* conducting plate in the plane z = 0. v = position of the first atom     *)
(* minus that of the second, an integer vector; the plate is given by the  *)
(* sum of the two heights, p (0: no plate). All values are exact: lengths  *)
(* are integers and the tensors are multiplied by L^5 (dipole-dipole) or   *)
(* L^7 (dipole-quadrupole), L a common multiple of the two lengths.        *)
(* Everything follows from one function, the field of a dipole and its     *)
(* derivatives; the plate is the mirrored dipole (the method of images).   *)
(***************************************************************************)
EXTENDS Integers, Sequences
Del(i, j) == IF i = j THEN 1 ELSE 0
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Isqrt(n) == CHOOSE k \in 0 .. 60 : k * k = n \/ (k = 60 /\ ~\E q \in 0 .. 59 : q * q = n)
\* r^5 (3 n n - 1) / r^3 and r^7 times its derivative by component k
Dip(v, i, j) == 3 * v[i] * v[j] - Del(i, j) * Sq(v)
Der(v, i, j, k) == 3 * Sq(v) * (Del(i, j) * v[k] + Del(i, k) * v[j] + Del(j, k) * v[i]) - 15 * v[i] * v[j] * v[k]
\* the mirrored second atom: displacement and dipole
Image(v, p) == <<v[1], v[2], p>>
Mirrored(j) == IF j = 3 THEN 1 ELSE -1
Scaled(n, r, L, pow) == n * Power(L \div r, pow)
DD(v, p, L, i, j) ==
  Scaled(Dip(v, i, j), Isqrt(Sq(v)), L, 5) +
  (IF p = 0 THEN 0 ELSE LET w == Image(v, p) IN Scaled(Mirrored(j) * Dip(w, i, j), Isqrt(Sq(w)), L, 5))
\* derivative with respect to the second atom's position: v and the mirror image move oppositely, except upwards
DQ(v, p, L, i, j, k) ==
  Scaled(-Der(v, i, j, k), Isqrt(Sq(v)), L, 7) +
  (IF p = 0 THEN 0 ELSE LET w == Image(v, p) IN Scaled(Mirrored(j) * Mirrored(k) * Der(w, i, j, k), Isqrt(Sq(w)), L, 7))
\* with respect to the first atom's position
QD(v, p, L, i, j, k) ==
  Scaled(Der(v, j, k, i), Isqrt(Sq(v)), L, 7) +
  (IF p = 0 THEN 0 ELSE LET w == Image(v, p) IN Scaled(Mirrored(k) * Der(w, j, k, i), Isqrt(Sq(w)), L, 7))
\* a plate at height h (twice the height: p) below the middle of the atoms
Possible(v, p) == v[2] = 0 /\ p - v[3] >= 0 /\ p + v[3] >= 0
=============================================================================
