-------------------------------- MODULE Mult --------------------------------
(***************************************************************************)
(* One-atom operators from first principles. States are sequences          *)
(* <<n, l, 2j, 2m>> of an electron shell with spin S2 / 2; numbers are in  *)
(* units of 1/K. The position operators are polynomials of the unit vector *)
(* (C^k_k ~ (C^1_1)^k, the others by lowering), the magnetic moment is     *)
(* gL L + gS S, and |l s j m> is the sum over |l m_l> |s m_s>.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
K == 10000
IAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrt(n, m, hi) ELSE ISqrt(n, lo, m)
Over(x, y) == IF x >= 0 THEN (x + y \div 2) \div y ELSE -((-x + y \div 2) \div y)
Mul(x, y) == Over(x * y, K)
\* K sqrt(p / q) for p / q <= 20
Root(p, q) == IF p <= 0 THEN 0 ELSE ISqrt((100000000 \div q) * p + ((100000000 % q) * p) \div q, 0, 46340)
\* sqrt of a small integer
IRoot(p) == IF p <= 20 THEN Root(p, 1) ELSE 10 * ISqrt(1000000 * p, 0, 46340)
\* C^1_1 |l m>: to l + 1 and l - 1
UpUp(l, m) == Root((l + m + 1) * (l + m + 2), 2 * (2 * l + 1) * (2 * l + 3))
UpDown(l, m) == IF l = 0 THEN 0 ELSE -Root((l - m) * (l - m - 1), 2 * (2 * l - 1) * (2 * l + 1))
One1(a, ma, b, mb) == IF ma # mb + 1 \/ IAbs(ma) > a \/ IAbs(mb) > b THEN 0 ELSE IF a = b + 1 THEN UpUp(b, mb) ELSE IF a = b - 1 THEN UpDown(b, mb) ELSE 0
\* sqrt((2k)!) / (k! sqrt(2)^k), relative to k - 1
Step(k) == Root((2 * k) * (2 * k - 1), 2 * k * k)
RECURSIVE Top(_, _, _, _, _)
Top(k, a, ma, b, mb) ==
  IF ma # mb + k \/ IAbs(ma) > a \/ IAbs(mb) > b \/ IAbs(a - b) > k THEN 0
  ELSE IF k = 0 THEN (IF a = b THEN K ELSE 0)
  ELSE LET via(x) == IF x < 0 THEN 0 ELSE Mul(One1(a, ma, x, ma - 1), Top(k - 1, x, ma - 1, b, mb)) IN Mul(Step(k), via(a + 1) + via(a - 1))
Sgn(n) == IF n % 2 = 0 THEN 1 ELSE -1
RECURSIVE C(_, _, _, _, _, _)
C(k, q, a, ma, b, mb) == \* <a ma| C^k_q |b mb>
  IF ma # mb + q \/ IAbs(ma) > a \/ IAbs(mb) > b \/ IAbs(q) > k \/ IAbs(a - b) > k \/ (a + b + k) % 2 = 1 \/ a + b < k THEN 0
  ELSE IF q = k THEN Top(k, a, ma, b, mb)
  ELSE IF q < 0 THEN Sgn(q) * C(k, -q, b, mb, a, ma)
  ELSE LET x == Mul(IRoot((a + ma + 1) * (a - ma)), C(k, q + 1, a, ma + 1, b, mb))
           y == Mul(IRoot((b + mb) * (b - mb + 1)), C(k, q + 1, a, ma, b, mb - 1)) IN
       Over(K * (x - y), IRoot((k + q + 1) * (k - q)))
\* Clebsch-Gordan coefficients <l (m - u/2), s u/2 | j m>; S2, jj, mm, u: doubled
CG(S2, l, jj, mm, u) ==
  IF IAbs(mm - u) > 2 * l \/ IAbs(u) > S2 \/ IAbs(mm) > jj THEN 0
  ELSE CASE S2 = 0 -> IF jj = 2 * l THEN K ELSE 0
    [] S2 = 1 -> LET a == Root(2 * l + 1 + mm, 2 * (2 * l + 1))
                     b == Root(2 * l + 1 - mm, 2 * (2 * l + 1)) IN
                 IF jj = 2 * l + 1 THEN (IF u = 1 THEN a ELSE b) ELSE IF jj = 2 * l - 1 THEN (IF u = 1 THEN -b ELSE a) ELSE 0
    [] S2 = 2 -> LET m == mm \div 2
                     e == u \div 2
                     w == 2 * l + 1 IN
         IF jj = 2 * l + 2 THEN (CASE e = 1 -> Root((l + m) * (l + m + 1), w * (w + 1)) [] e = 0 -> Root((l - m + 1) * (l + m + 1), w * (l + 1)) [] e = -1 -> Root((l - m) * (l - m + 1), w * (w + 1)))
         ELSE IF jj = 2 * l /\ l > 0 THEN (CASE e = 1 -> -Root((l + m) * (l - m + 1), 2 * l * (l + 1)) [] e = 0 -> (IF m < 0 THEN -1 ELSE 1) * Root(m * m, l * (l + 1)) [] e = -1 -> Root((l - m) * (l + m + 1), 2 * l * (l + 1)))
         ELSE IF jj = 2 * l - 2 /\ l > 0 THEN (CASE e = 1 -> Root((l - m) * (l - m + 1), w * (w - 1)) [] e = 0 -> -Root((l - m) * (l + m), l * w) [] e = -1 -> Root((l + m + 1) * (l + m), w * (w - 1)))
         ELSE 0
RECURSIVE Sum(_, _)
Sum(f(_), i) == IF i < 0 THEN 0 ELSE f(i) + Sum(f, i - 1)
Spins(S2, f(_)) == Sum(LAMBDA i : f(2 * i - S2), S2)
\* <r| C^k_q |c> with q = m - m'; the spin is untouched
Q2(r, c) == r[4] - c[4]
Pole(S2, k, r, c) ==
  IF Q2(r, c) % 2 # 0 THEN 0 ELSE
  Spins(S2, LAMBDA u : LET x == CG(S2, r[2], r[3], r[4], u)
                           y == CG(S2, c[2], c[3], c[4], u) IN
    IF x = 0 \/ y = 0 THEN 0 ELSE Mul(Mul(x, y), C(k, Q2(r, c) \div 2, r[2], (r[4] - u) \div 2, c[2], (c[4] - u) \div 2)))
\* spherical components of an angular momentum: <m'| J_q |m> for doubled momenta
Comp(jj, ma, mb) ==
  IF IAbs(ma) > jj \/ IAbs(mb) > jj THEN 0
  ELSE IF ma = mb THEN (mb * K) \div 2
  ELSE IF ma = mb + 2 THEN -Over(IRoot(((jj - mb) * (jj + mb + 2)) \div 2), 2) \* (sqrt(x / 4) / sqrt(2))
  ELSE IF ma = mb - 2 THEN Over(IRoot(((jj + mb) * (jj - mb + 2)) \div 2), 2)
  ELSE 0
GS == 20023 \* times 1/K
Moment(S2, r, c) ==
  IF r[2] # c[2] THEN 0 ELSE
  Spins(S2, LAMBDA u : Spins(S2, LAMBDA v :
    LET x == CG(S2, r[2], r[3], r[4], u)
        y == CG(S2, c[2], c[3], c[4], v)
        orb == IF u = v THEN Comp(2 * r[2], r[4] - u, c[4] - v) ELSE 0
        spin == IF r[4] - u = c[4] - v THEN Mul(GS, Comp(S2, u, v)) ELSE 0 IN
    IF x = 0 \/ y = 0 \/ (orb = 0 /\ spin = 0) THEN 0 ELSE Mul(Mul(x, y), orb + spin)))
\* the rules
PoleRule(k, q, r, c) ==
  /\ IAbs(r[2] - c[2]) <= k /\ (r[2] + c[2] + k) % 2 = 0
  /\ IAbs(r[3] - c[3]) <= 2 * k /\ r[3] + c[3] >= 2 * k
  /\ r[4] = c[4] + 2 * q /\ IAbs(q) <= k
MomentRule(q, r, c) == r[2] = c[2] /\ IAbs(r[3] - c[3]) <= 2 /\ r[4] = c[4] + 2 * q /\ IAbs(q) <= 1
States(S2, lmax) == {<<10, l, jj, mm>> : l \in 0 .. lmax, jj \in 0 .. (2 * lmax + S2), mm \in -(2 * lmax + S2) .. (2 * lmax + S2)}
Valid(S2, s) == s[3] >= IAbs(2 * s[2] - S2) /\ s[3] <= 2 * s[2] + S2 /\ (s[3] + S2) % 2 = 0 /\ IAbs(s[4]) <= s[3] /\ (s[4] + s[3]) % 2 = 0
=============================================================================
