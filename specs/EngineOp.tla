------------------------------ MODULE EngineOp ------------------------------
(***************************************************************************)
(* What the matrices of the calculation engine must be: for one atom the   *)
(* energies relative to the initial state (or to the mean of the two)      *)
(* and the interaction with the fields of the step; for two atoms the sum  *)
(* of both and the multipole interaction up to the order asked for,        *)
(* restricted to the block. The engine delivers eigenvectors V and         *)
(* eigenvalues E; compared is V (E + Shift) V', which also shows whether   *)
(* vectors are missing. Matrix elements are those of harness/drv/          *)
(* fakeold.cpp: simple numbers that differ from pair to pair.              *)
(*   q: the configuration as in module Protocol (fields and distances in   *)
(*      1/1000), expo, dia, deltapair (1/1000 as deltaewin, < 0: none)     *)
(***************************************************************************)
EXTENDS One
P == INSTANCE Protocol
CONSTANTS Slip
Shift == 40
Code(sp) == IF sp = "Cs" THEN 1 ELSE 0
Level(sp, s) == 2 * (16 * (s[1] - 60) + (IF Code(sp) = 1 THEN 7 ELSE 5) * s[2] + s[3])
Id(s) == s[1] + 7 * s[2] + 3 * s[3] + 5 * s[4] + 40
Tab(sp, kind, r, c) ==
  LET a == Id(r)
      b == Id(c)
      x == (a * a + b * b) * 13 + a * b * 29 * (Code(sp) + 1) + kind * 1009 IN ((x % 97) % 5) - 2
Comp(r, c) == LET d == r[4] - c[4] IN d \div 2
(*** one atom; f = <<Ex, Ey, Ez, Bx, By, Bz>> *******************************)
Species(q, a) == IF a = 1 THEN q.sp2 ELSE q.sp1
\* the zero of energy, doubled
Zero2(q, a) == IF a = 3 THEN Level(q.sp1, q.s1) + Level(q.sp1, q.s2) ELSE 2 * Level(Species(q, a), IF a = 0 THEN q.s1 ELSE q.s2)
Rel(q, a, s) == (2 * Level(Species(q, a), s) - Zero2(q, a)) \div 2
Within(x, w) == w < 0 \/ 1000 * IAbs(x) < w
Field(q, a, f, r, c) ==
  LET sp == Species(q, a)
      k == Comp(r, c)
      e == <<f[1], f[2], f[3]>>
      b == <<f[4], f[5], f[6]>>
      ve == IF IAbs(k) <= 1 /\ e # <<0, 0, 0>> /\ Pole(r, c, 1, k) THEN Vector(e, Tab(sp, 1, r, c), k) ELSE Z
      vb == IF IAbs(k) <= 1 /\ b # <<0, 0, 0>> /\ Moment(r, c, k) THEN Vector(b, Tab(sp, 10, r, c), k) ELSE Z
      d0 == IF q.dia /\ b # <<0, 0, 0>> /\ k = 0 /\ Pole(r, c, 0, 0) THEN Dia0(b, Tab(sp, 20, r, c)) ELSE Z
      d2 == IF q.dia /\ b # <<0, 0, 0>> /\ IAbs(k) <= 2 /\ Pole(r, c, 2, k) THEN Dia2(b, Tab(sp, 22, r, c), k) ELSE Z
  IN CAdd(CAdd(ve, vb), CAdd(d0, d2))
HOne(q, a, f, r, c) == CAdd(IF r = c THEN <<Rel(q, a, r), 0>> ELSE Z, Field(q, a, f, r, c))
\* the states of an atom's basis
States(q, a) == {s \in P!Want(q, a) : Within(Rel(q, a, s), q.deltae)}
OpOne(q, a, f, st) == TLCEval([i \in 1 .. Len(st) |-> TLCEval([j \in 1 .. Len(st) |-> HOne(q, a, f, st[i], st[j])])])
(*** two atoms *************************************************************)
\* times the component of the elements of rank k and n; (-1)^n and the sign of components below zero are included
Strength(k, n, c) ==
  CASE k + n = 2 -> IF c = 0 THEN -2 ELSE IF IAbs(c) = 1 THEN 2 ELSE 0
    [] k + n = 3 -> (IF n = 2 THEN 1 ELSE -1) * (IF c = 0 THEN 9 ELSE IF IAbs(c) = 1 THEN -6 ELSE 0)
    [] k = 2 -> IF c = 0 THEN 54 ELSE IF IAbs(c) = 1 THEN -24 ELSE IF IAbs(c) = 2 THEN 6 ELSE 0
    [] OTHER -> IF c = 0 THEN -4 ELSE IF IAbs(c) = 1 THEN 6 ELSE 0
\* an element of rank k between two states of an atom, up to the factors above
Rank(sp, k, r, c) == IF Pole(r, c, k, Comp(r, c)) THEN Tab(sp, k, r, c) ELSE 0
\* the interaction in terms of the elements x, y (functions of the rank) of the two atoms
\* between which the projections change by a and -a; times 1000
Between(expo, dist, a, x, y) ==
  IF expo < 3 THEN 0
  ELSE LET T(k, n) == Strength(k, n, a) * x[k] * y[n] IN
       (1000 * T(1, 1)) \div Pow(dist, 3)
       + (IF expo < 4 THEN 0 ELSE (1000 * (T(1, 2) + T(2, 1))) \div Pow(dist, 4))
       + (IF expo < 5 THEN 0 ELSE (1000 * (T(1, 3) + T(2, 2) + T(3, 1))) \div Pow(dist, 5))
\* the parts of the atoms: a1, a2
AtomA(q) == IF q.same THEN 3 ELSE 0
AtomB(q) == IF q.same THEN 3 ELSE 1
Free(q, x) == Rel(q, AtomA(q), x[1]) + Rel(q, AtomB(q), x[2])
Here(q, x, sym) == Within(Free(q, x), q.deltapair) /\ (sym[4] # P!NA => IF sym[3] = P!NA THEN x[1][4] + x[2][4] = 2 * sym[4] ELSE IAbs(x[1][4] + x[2][4]) = 2 * IAbs(sym[4]))
\* the symmetries of a block: <<inversion, permutation, reflection, rotation>>; each takes a pair of
\* states to a pair with a sign
Par(x) == IF (x[1][2] + x[2][2]) % 2 = 0 THEN 1 ELSE -1
Sg(k) == IF k % 2 = 0 THEN 1 ELSE -1
Swap(x) == <<x[2], x[1]>>
Mirror(x) == <<[x[1] EXCEPT ![4] = -@], [x[2] EXCEPT ![4] = -@]>>
InvSign(x) == -Par(x)
PerSign(x) == -1
RefSign(x) == Par(x) * Sg((x[1][3] + x[2][3]) \div 2) * Sg((x[1][4] + x[2][4]) \div 2)
\* the projector of the block takes x to the sum of c[1] x, c[2] Swap(x), c[3] Mirror(x), c[4] Mirror(Swap(x)), divided by 8
Coefs(sym, x) ==
  LET i == sym[1] # P!NA
      p == sym[2] # P!NA
      r == sym[3] # P!NA
      order == (IF i THEN 2 ELSE 1) * (IF p THEN 2 ELSE 1) * (IF r THEN 2 ELSE 1)
      stay == 1 + (IF i /\ p THEN sym[1] * sym[2] * InvSign(x) * PerSign(x) ELSE 0)
      turn == IF Slip = "turn" THEN 0 ELSE (IF i THEN sym[1] * InvSign(x) ELSE 0) + (IF p THEN sym[2] * PerSign(x) ELSE 0)
      mir == IF r THEN sym[3] * RefSign(x) ELSE 0 IN
  <<(8 \div order) * stay, (8 \div order) * turn, (8 \div order) * stay * mir, (8 \div order) * turn * mir>>
Plain(sym) == sym[1] = P!NA /\ sym[2] = P!NA /\ sym[3] = P!NA
Over64(z) == <<z[1] \div 64, z[2] \div 64>>
\* all that is to be known about an atom, between all of its states: the Hamiltonian and the elements
Half(q, a, f, st) ==
  LET n == Len(st)
      sp == Species(q, a) IN
  TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. n |-> TLCEval(
     [h |-> HOne(q, a, f, st[i], st[j]), c |-> Comp(st[i], st[j]), x |-> [k \in 1 .. 3 |-> Rank(sp, k, st[i], st[j])]])])])
Index(st, s) == CHOOSE k \in 1 .. Len(st) : st[k] = s
\* st: the pairs; st1, st2: states of the atoms, among them all that occur in the pairs; times 1000
OpTwo(q, f, dist, sym, st, st1, st2) ==
  LET n == Len(st)
      half1 == TLCEval(Half(q, AtomA(q), f, st1))
      half2 == TLCEval(IF q.same THEN half1 ELSE Half(q, AtomB(q), f, st2))
      at == TLCEval([i \in 1 .. n |-> <<Index(st1, st[i][1]), Index(st2, st[i][2])>>])
      in == TLCEval([i \in 1 .. n |-> Here(q, st[i], sym)])
      E(i, j) ==
        LET x == half1[at[i][1]][at[j][1]]
            y == half2[at[i][2]][at[j][2]]
            z == CAdd(CAdd(IF at[i][2] = at[j][2] THEN x.h ELSE Z, IF at[i][1] = at[j][1] THEN y.h ELSE Z), IF i = j THEN <<Shift, 0>> ELSE Z) IN
        <<1000 * z[1] + (IF x.c + y.c = 0 THEN Between(q.expo, dist, x.c, x.x, y.x) ELSE 0), 1000 * z[2]>>
      h == TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. n |-> IF in[i] /\ in[j] THEN E(i, j) ELSE Z])])
      \* where the projector takes a pair, and with which factor
      to == TLCEval([i \in 1 .. n |-> TLCEval(
              LET c == Coefs(sym, st[i])
                  y == <<st[i], Swap(st[i]), Mirror(st[i]), Mirror(Swap(st[i]))>>
                  s == SelectSeq(<<1, 2, 3, 4>>, LAMBDA k : c[k] # 0) IN
              [k \in 1 .. Len(s) |-> <<CHOOSE m \in 1 .. n : st[m] = y[s[k]], c[s[k]]>>])]) IN
  IF Plain(sym) THEN h
  ELSE TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. n |->
         Over64(SumC(LAMBDA a : SumC(LAMBDA b : Scale(to[i][a][2] * to[j][b][2], h[to[i][a][1]][to[j][b][1]]), Len(to[j])), Len(to[i])))])])
\* the fields and the distance of a step
FieldAt(q, s) == LET n == P!StepsOne(q) IN [k \in 1 .. 6 |-> P!At(q.fmin[k], q.fmax[k], IF n = 1 THEN 0 ELSE s, n) \div 1000]
DistAt(q, s) == P!At(q.rmin, q.rmax, s, P!StepsTwo(q)) \div 1000
=============================================================================
