-------------------------------- MODULE Rot --------------------------------
(***************************************************************************)
(* Rotations of angular-momentum states, with exact angles: an angle is    *)
(* given by <<c, s>>, proportional to the cosine and sine of its half, with*)
(* c^2 + s^2 a square or 2. Amplitudes are in units of 1/K.                *)
(*   D(a,b,g) = exp(-i m a) d(b) exp(-i m' g),  rows m, columns m'         *)
(***************************************************************************)
EXTENDS One
K == 10000
Zero == <<1, 0>>
Back(a) == <<a[1], -a[2]>>
Size(a) == a[1] * a[1] + a[2] * a[2]
Root(n) == CASE n = 1 -> 1 [] n = 25 -> 5 [] n = 169 -> 13 [] n = 625 -> 25
\* a full turn more or less is the same rotation but not the same angle
Plus2(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Over(x, y) == IF x >= 0 THEN (x + y \div 2) \div y ELSE -((-x + y \div 2) \div y)
Down(z) == <<Over(z[1], K), Over(z[2], K)>>
\* exp(i angle / 2)
Half(a) == IF Size(a) = 2 THEN <<7071 * a[1], 7071 * a[2]>> ELSE <<Over(K * a[1], Root(Size(a))), Over(K * a[2], Root(Size(a)))>>
RECURSIVE CPow(_, _)
CPow(z, n) == IF n = 0 THEN <<K, 0>> ELSE Down(CMul(z, CPow(z, n - 1)))
\* exp(-i m angle), mm = 2m
Phase(a, mm) == IF mm >= 0 THEN Conj(CPow(Half(a), mm)) ELSE CPow(Half(a), -mm)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrt(n, m, hi) ELSE ISqrt(n, lo, m)
Sgn(x) == IF x < 0 THEN -1 ELSE 1
MinusOne(n) == IF n % 2 = 0 THEN 1 ELSE -1
\* the small element without the root of binomials: sum over k, times r^(2j)
RECURSIVE Terms(_, _, _, _, _, _)
Terms(jj, p, m, c, s, k) == \* p, m, jj: twice the momenta; k counts down
  IF k < 0 THEN 0 ELSE
  LET d == (p - m) \div 2
      x == (jj + m) \div 2
      y == (jj - m) \div 2
      ok == k <= x /\ d + k >= 0 /\ d + k <= y IN
  Terms(jj, p, m, c, s, k - 1) +
    (IF ok THEN MinusOne(d + k) * Choose(x, k) * Choose(y, d + k) * Pow(c, jj - d - 2 * k) * Pow(s, d + 2 * k) ELSE 0)
Scaled(jj, S, r2) == \* |S| K / r^(2j)
  IF r2 = 2 THEN (IF jj % 2 = 0 THEN (K * IAbs(S)) \div Pow(2, jj \div 2) ELSE (7071 * IAbs(S)) \div Pow(2, (jj - 1) \div 2))
  ELSE (K * IAbs(S)) \div Pow(Root(r2), jj)
Direct(jj, p, m, b) ==
  LET S == Terms(jj, p, m, b[1], b[2], jj)
      a == Scaled(jj, S, Size(b))
      n == Choose(jj, (jj + m) \div 2)
      d == Choose(jj, (jj + p) \div 2) IN
  Sgn(S) * (IF n = d THEN a ELSE ISqrt((a * a * n) \div d, 0, 20000))
Small(jj, p, m, b) ==
  IF Choose(jj, (jj + m) \div 2) >= Choose(jj, (jj + p) \div 2) THEN Direct(jj, p, m, b)
  ELSE MinusOne((p - m) \div 2) * Direct(jj, m, p, b)
D(jj, p, m, a, b, g) == Down(CMul(Down(CMul(Phase(a, p), <<Small(jj, p, m, b), 0>>)), Phase(g, m)))
\* rotating the coordinates by a, b, g: states turn the other way round
Level(s) == <<s[1], s[2], s[3]>>
Element(pool, r, c, t) == IF Level(pool[r]) # Level(pool[c]) THEN Z
  ELSE D(pool[c][3], pool[r][4], pool[c][4], Back(t[3]), Back(t[2]), Back(t[1]))
Turn(pool, st, t) == TLCEval([i \in 1 .. Len(st) |-> TLCEval([k \in 1 .. Len(st) |-> Element(pool, st[i], st[k], t)])])
\* T B, where T has few entries per row
Apply(T, B, n, k) ==
  LET R == TLCEval([i \in 1 .. n |-> SelectSeq([x \in 1 .. n |-> x], LAMBDA x : T[i][x] # Z)]) IN
  TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. k |-> Down(SumC(LAMBDA q : CMul(T[i][R[i][q]], B[R[i][q]][j]), Len(R[i])))])])
\* T B T^+
Conjugated(T, B, n) == Adj(Apply(T, TLCEval(Adj(Apply(T, B, n, n), n, n)), n, n), n, n)
\* the elements between the states of a pool and between pairs of them
Elements(pool, t) == TLCEval([i \in 1 .. Len(pool) |-> TLCEval([k \in 1 .. Len(pool) |-> Element(pool, i, k, t)])])
TurnPairs(pool, st, t) ==
  LET el == Elements(pool, t) IN
  TLCEval([r \in 1 .. Len(st) |-> TLCEval([q \in 1 .. Len(st) |->
    LET x == el[st[r][1]][st[q][1]]
        y == el[st[r][2]][st[q][2]] IN
    IF x = Z \/ y = Z THEN Z ELSE Down(CMul(x, y))])])
\* double cover: the sign a spinor gets from a full turn
Negative(B) == [i \in DOMAIN B |-> [j \in DOMAIN B[i] |-> Neg(B[i][j])]]
NearC(x, y, t) == IAbs(x[1] - y[1]) <= t /\ IAbs(x[2] - y[2]) <= t
Like(A, B, t) == Len(A) = Len(B) /\ \A i \in 1 .. Len(A) : Len(A[i]) = Len(B[i]) /\ (\A j \in 1 .. Len(A[i]) : NearC(A[i][j], B[i][j], t))
\* rotation matrix of the angles, in units of Size(a) Size(b) Size(g): columns are the new axes
Co(a) == a[1] * a[1] - a[2] * a[2]
Si(a) == 2 * a[1] * a[2]
NewZ(t) == <<Co(t[1]) * Si(t[2]), Si(t[1]) * Si(t[2]), Size(t[1]) * Co(t[2])>>
NewY(t) == <<-Co(t[1]) * Co(t[2]) * Si(t[3]) - Si(t[1]) * Size(t[2]) * Co(t[3]),
             -Si(t[1]) * Co(t[2]) * Si(t[3]) + Co(t[1]) * Size(t[2]) * Co(t[3]),
             Size(t[1]) * Si(t[2]) * Si(t[3])>>
\* real numbers suffice when the outer angles are full turns
Real(t) == t[1][2] = 0 /\ t[3][2] = 0
=============================================================================
