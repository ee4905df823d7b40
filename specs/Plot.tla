-------------------------------- MODULE Plot --------------------------------
(* What the interface's plots are computed with: elements of the rotation   *)
(* group at an angle whose half has the tangent p/q, joined sparse matrices, *)
(* the strongest entries of rows, and images of whole numbers. Half-integers *)
(* are doubled.                                                              *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Pow(_, _), Fact(_)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE Fact(n) \div (Fact(k) * Fact(n - k))
Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
N(j, m) == Fact((j + m) \div 2) * Fact((j - m) \div 2)
\* d^j_{a,b} of the angle times sqrt(N(a) N(b)) (p^2 + q^2)^j, a whole number
RECURSIVE Sum(_, _, _, _, _, _)
Sum(k, j, a, b, p, q) ==
  IF k > j THEN 0
  ELSE LET x == (j + b) \div 2  y == (j - b) \div 2  z == (j - a) \div 2  u == (a - b) \div 2
           t == IF k > x \/ k > z \/ u + k < 0 THEN 0
                ELSE Sgn(u + k) * Binom(x, k) * Binom(y, z - k) * Pow(q, j - u - (2 * k)) * Pow(p, u + (2 * k))
       IN t + Sum(k + 1, j, a, b, p, q)
Elem(j, a, b, p, q) == N(j, a) * Sum(0, j, a, b, p, q)
\* matrices are sequences of rows
Below(a, b) == a \o b
Beside(a, b) == [i \in 1..Len(a) |-> a[i] \o b[i]]
RowMax(r) == CHOOSE x \in {r[i] : i \in 1..Len(r)} : \A i \in 1..Len(r) : r[i] <= x
Strongest(a) == [i \in 1..Len(a) |-> [k \in 1..Len(a[i]) |-> IF a[i][k] = RowMax(a[i]) THEN a[i][k] ELSE 0]]
\* an image: the lowest number becomes low, the highest high
Byte(x, lo, hi, low, high) == low + (IF hi = lo THEN 0 ELSE ((x - lo) * ((10000 * (high - low)) + 9999)) \div ((hi - lo) * 10000))
Image(s, lo, hi, low, high) == [i \in 1..Len(s) |-> Byte(s[i], lo, hi, low, high)]
=============================================================================
