-------------------------------- MODULE One --------------------------------
(***************************************************************************)
(* What the Hamiltonian of a one-atom system must be: the field-free       *)
(* energies plus interaction terms given by the settings in force alone.   *)
(* Numbers are Gaussian integers. The tables T of matrix elements are      *)
(* chosen by the environment (the conformance driver supplies elements     *)
(* that absorb the irrational factors, see harness/drv/one.cpp):           *)
(*    E  : electric dipole, in units of 1 (q = 0) or sqrt 2 (q = 1)        *)
(*    B  : magnetic dipole, likewise                                       *)
(*    D0 : diamagnetism of rank 0, in units of 8 m                         *)
(*    D2 : of rank 2, in units of 16 m, 8 m sqrt(2/3), 16 m sqrt(2/3)      *)
(*    I  : multipole of order k, in units of 16 / (coulomb * charge)       *)
(* A state is <<n, l, 2j, 2m>>; n < 0 marks an artificial one.             *)
(***************************************************************************)
EXTENDS Mat, TLC
Art(s) == s[1] < 0
LevelEnergy(s) == IF Art(s) THEN 0 ELSE 10 * (s[1] - 60) + 3 * s[2] + s[3]
\* selection rules of a spherical tensor operator of rank k, component q
Pole(r, c, k, q) ==
  LET dl == IAbs(r[2] - c[2]) IN
  /\ dl <= k /\ dl % 2 = k % 2
  /\ IAbs(r[3] - c[3]) <= 2 * k /\ r[3] + c[3] >= 2 * k
  /\ r[4] = c[4] + 2 * q /\ IAbs(q) <= k
  /\ ~(k = 2 /\ r[3] = 3 /\ c[3] = 3 /\ r[4] = -c[4] /\ IAbs(r[4]) = 1) \* vanishes: <3/2 1/2 | 2 1 | 3/2 -1/2>
Moment(r, c, q) == r[2] = c[2] /\ IAbs(r[3] - c[3]) <= 2 /\ r[3] + c[3] >= 2 /\ r[4] = c[4] + 2 * q
\* field = <<x, y, z>>: <z>, <x + iy>, <x - iy>
Up(f) == <<f[1], f[2]>>
Dn(f) == <<f[1], -f[2]>>
Neg(z) == <<-z[1], -z[2]>>
Scale(k, z) == <<k * z[1], k * z[2]>>
\* matrix element of a vector operator along f between r and c, v the table value
\* of the pair: -(z d0) + d1 (x - iy) - ... , with d(-1) = -adjoint of d(1)
Vector(f, v, q) == IF q = 0 THEN <<-f[3] * v, 0>> ELSE IF q = 1 THEN Scale(v, Dn(f)) ELSE Scale(v, Up(f))
\* (the table value of a pair with r below c is that of (c, r) times -1; the minus of d(-1) cancels it)
Dia0(f, v) == <<v * (f[1] * f[1] + f[2] * f[2] + f[3] * f[3]) , 0>>
Dia2(f, v, q) == LET z == f[3] IN
  CASE q = 0 -> <<-v * (2 * z * z - f[1] * f[1] - f[2] * f[2]), 0>>
    [] q = 1 -> Scale(v * z, Dn(f))
    [] q = -1 -> Scale(v * z, Up(f))
    [] q = 2 -> Neg(Scale(v, CMul(Dn(f), Dn(f))))
    [] OTHER -> Neg(Scale(v, CMul(Up(f), Up(f))))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
\* set: [e, b, dia, charge, order, dist], dist = 0 for infinitely far
New == [e |-> <<0, 0, 0>>, b |-> <<0, 0, 0>>, dia |-> TRUE, charge |-> 0, order |-> 0, dist |-> 0]
Entry(T, st, set, i, j) ==
  LET r == st[i]
      c == st[j]
      d == r[4] - c[4]
      q == IF IAbs(d) % 2 = 0 THEN d \div 2 ELSE 99
      v(k) == IF i <= j THEN T[k][i][j] ELSE T[k][j][i]
      free == IF i = j THEN <<LevelEnergy(r), 0>> ELSE Z
      e == IF IAbs(q) <= 1 /\ set.e # <<0, 0, 0>> /\ Pole(r, c, 1, q) THEN Vector(set.e, v("E"), q) ELSE Z
      b == IF IAbs(q) <= 1 /\ set.b # <<0, 0, 0>> /\ Moment(r, c, q) THEN Vector(set.b, v("B"), q) ELSE Z
      d0 == IF q = 0 /\ set.dia /\ set.b # <<0, 0, 0>> /\ Pole(r, c, 0, 0) THEN Dia0(set.b, v("D0")) ELSE Z
      d2 == IF IAbs(q) <= 2 /\ set.dia /\ set.b # <<0, 0, 0>> /\ Pole(r, c, 2, q) THEN Dia2(set.b, v("D2"), q) ELSE Z
      ion == IF q # 0 \/ set.charge = 0 \/ set.dist = 0 THEN 0
             ELSE SumI(LAMBDA k : IF Pole(r, c, k, 0) THEN -set.charge * v("I" \o ToString(k)) * (16 \div Pow(set.dist, k + 1)) ELSE 0, set.order)
  IN IF Art(r) \/ Art(c) THEN free
     ELSE CAdd(free, CAdd(CAdd(e, b), CAdd(CAdd(d0, d2), <<ion, 0>>)))
\* st: the states (as numbers of the pool) in the order of the system
Operator(T, pool, set, st) == TLCEval([i \in 1 .. Len(st) |-> TLCEval([j \in 1 .. Len(st) |-> Entry(T, pool, set, st[i], st[j])])])
\* axes: a field given in a coordinate system whose axes are z and y
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
IsUnit(a) == Dot(a, a) = 1
Onto(f, z, y) == IF f = <<0, 0, 0>> THEN f ELSE <<Dot(Cross(y, z), f), Dot(y, f), Dot(z, f)>>
\* Euler angles in quarter turns: rotation about z, y, z; the transpose acts on the field
Cos(a) == CASE a % 4 = 0 -> 1 [] a % 4 = 2 -> -1 [] OTHER -> 0
Sin(a) == CASE a % 4 = 1 -> 1 [] a % 4 = 3 -> -1 [] OTHER -> 0
BackZ(a, f) == <<Cos(a) * f[1] + Sin(a) * f[2], Cos(a) * f[2] - Sin(a) * f[1], f[3]>>
BackY(a, f) == <<Cos(a) * f[1] - Sin(a) * f[3], f[2], Sin(a) * f[1] + Cos(a) * f[3]>>
Turned(f, a) == IF f = <<0, 0, 0>> THEN f ELSE BackZ(a[3], BackY(a[2], BackZ(a[1], f)))
\* a request: [ok, set]
Change(cplx, set, k, a) ==
  LET field == CASE k \in {"E", "B"} -> a
                 [] k \in {"EAxes", "BAxes"} -> Onto(a[1], a[2], a[3])
                 [] k \in {"ETurn", "BTurn"} -> Turned(a[1], a[2])
                 [] OTHER -> <<0, 0, 0>>
      legal == /\ k \in {"EAxes", "BAxes"} => (a[1] = <<0, 0, 0>> \/ Dot(a[2], a[3]) = 0)
               /\ cplx \/ field[2] = 0 IN
  CASE k \in {"E", "EAxes", "ETurn"} -> [ok |-> legal, set |-> IF legal THEN [set EXCEPT !.e = field] ELSE set]
    [] k \in {"B", "BAxes", "BTurn"} -> [ok |-> legal, set |-> IF legal THEN [set EXCEPT !.b = field] ELSE set]
    [] k = "Dia" -> [ok |-> TRUE, set |-> [set EXCEPT !.dia = a]]
    [] k = "Charge" -> [ok |-> TRUE, set |-> [set EXCEPT !.charge = a]]
    [] k = "Order" -> [ok |-> TRUE, set |-> [set EXCEPT !.order = a]]
    [] k = "Dist" -> [ok |-> TRUE, set |-> [set EXCEPT !.dist = a]]
    [] OTHER -> [ok |-> TRUE, set |-> set]
Settings == {"E", "B", "EAxes", "BAxes", "ETurn", "BTurn", "Dia", "Charge", "Order", "Dist"}
=============================================================================
