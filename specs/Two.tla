-------------------------------- MODULE Two --------------------------------
(***************************************************************************)
(* What the Hamiltonian of a two-atom system must be: the energies of the  *)
(* two atoms plus the interaction that the geometry in force stands for,   *)
(* as given by the Green tensor of module Green and, on the axis without a *)
(* Green tensor, by the multipole expansion up to the order in force.      *)
(* A geometry is a direction dir with length dn (integers), a distance r   *)
(* (0: infinitely far), the switch gt, the surface p (twice its distance   *)
(* from the middle of the atoms, 0: none) and the order.                   *)
(* Matrix elements are integers from tables, in units that the driver      *)
(* (harness/drv/two.cpp) supplies so that Cartesian components of dipole   *)
(* and quadrupole are integers.                                            *)
(***************************************************************************)
EXTENDS One
G == INSTANCE Green
Far == [dir |-> <<0, 0, 1>>, dn |-> 1, r |-> 0, gt |-> FALSE, p |-> 0, order |-> 3]
Vec(g) == IF g.r = 0 THEN g.dir ELSE <<(g.dir[1] * g.r) \div g.dn, (g.dir[2] * g.r) \div g.dn, (g.dir[3] * g.r) \div g.dn>>
\* a request: [ok, set]
Move(g, k, a) ==
  CASE k = "Dist" -> [ok |-> TRUE, set |-> [g EXCEPT !.r = a]]
    [] k = "Vec" -> [ok |-> TRUE, set |-> [g EXCEPT !.dir = a[1], !.dn = a[2], !.r = a[3], !.gt = @ \/ a[1][2] # 0]]
    [] k = "Angle" -> [ok |-> TRUE, set |-> [g EXCEPT !.dir = a[1], !.dn = a[2]]]
    [] k = "Order" -> [ok |-> TRUE, set |-> [g EXCEPT !.order = a]]
    [] k = "GT" -> IF ~a /\ g.p # 0 THEN [ok |-> FALSE, set |-> g] ELSE [ok |-> TRUE, set |-> [g EXCEPT !.gt = a]]
    [] k = "Surf" -> [ok |-> TRUE, set |-> [g EXCEPT !.p = a, !.gt = @ \/ a # 0]]
    [] OTHER -> [ok |-> TRUE, set |-> g]
Settings2 == {"Dist", "Vec", "Angle", "Order", "GT", "Surf"}
\* geometries whose interaction can be given
Readable(g) ==
  LET v == Vec(g)
      needed == v[2] # 0 \/ g.p # 0 \/ (v[1] # 0 /\ g.order > 3) IN
  g.r = 0 \/ ((needed => g.gt) /\ (g.gt => g.order < 5) /\ (g.p # 0 => G!Possible(v, g.p)))
(*** operators of one atom ************************************************)
Comp(r, c) == LET d == r[4] - c[4] IN IF IAbs(d) % 2 = 0 THEN d \div 2 ELSE 99
\* components x, y, z of the dipole between states with table value v
Dipole(q, v, i) == IF i = 3 THEN <<v, 0>> ELSE IF i = 2 THEN <<0, q * v>> ELSE <<-v, 0>>
\* of the quadrupole (v) with its trace (w); y components carry i for each index y
Quad(q, v, w, i, j) ==
  CASE q = 0 -> <<IF i = 3 THEN 2 * v + w ELSE w - v, 0>>
    [] IAbs(q) = 1 -> IF i = 2 \/ j = 2 THEN <<0, q * v>> ELSE <<-v, 0>>
    [] OTHER -> IF i = j THEN <<IF i = 1 THEN v ELSE -v, 0>> ELSE <<0, IF q = 2 THEN -v ELSE v>>
\* the components that do not vanish
DipAt(q) == IF q = 0 THEN <<3>> ELSE IF IAbs(q) = 1 THEN <<1, 2>> ELSE <<>>
QuadAt(q) == CASE q = 0 -> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>
               [] IAbs(q) = 1 -> <<<<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>>>
               [] IAbs(q) = 2 -> <<<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>>>
               [] OTHER -> <<>>
Power5(r) == r * r * r * r * r
(*** the interaction ******************************************************)
\* u: [L, pre, post, pre7, post7, e5]: an element of the tensor times the strength is
\* (its integer value div pre) * mul / post, see lib/twogen.py
DDT(g, u) == TLCEval([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> G!DD(Vec(g), g.p, u.L, i, j) \div u.pre]])
DQT(g, u) == TLCEval([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> [k \in 1 .. 3 |-> G!DQ(Vec(g), g.p, u.L, i, j, k) \div u.pre7]]])
QDT(g, u) == TLCEval([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> [k \in 1 .. 3 |-> G!QD(Vec(g), g.p, u.L, i, j, k) \div u.pre7]]])
Over(z, d) == <<z[1] \div d, z[2] \div d>>
\* a pair of one-atom states: its component and its values (0 where forbidden); cross: r is below c
Half(T, pool, r, c) ==
  LET a == pool[r]
      b == pool[c]
      q == Comp(a, b)
      v(k) == IF r <= c THEN T[k][r][c] ELSE T[k][c][r]
      P(k) == ~Art(a) /\ ~Art(b) /\ q # 99 /\ Pole(a, b, k, q) IN
  [q |-> q, d |-> IF P(1) THEN v("E") ELSE 0, t |-> IF P(2) THEN v("Q") ELSE 0,
   w |-> IF q = 0 /\ P(0) THEN v("M") ELSE 0, o |-> IF P(3) THEN v("O") ELSE 0]
SumOver(f(_), s) == SumC(LAMBDA n : f(s[n]), Len(s))
\* all values that belong to one atom pair, given the tensors t = [dd, dq, qd]
Between(x, y, g, u, t) ==
  LET dd == IF g.order < 3 \/ x.d = 0 \/ y.d = 0 THEN Z ELSE
              Over(Scale(-u.mul, SumOver(LAMBDA i : SumOver(LAMBDA j : Scale(t.dd[i][j], CMul(Dipole(x.q, x.d, i), Dipole(y.q, y.d, j))), DipAt(y.q)), DipAt(x.q))), u.post)
      dq == IF g.order < 4 \/ x.d = 0 \/ (y.t = 0 /\ y.w = 0) THEN Z ELSE
              Over(SumOver(LAMBDA i : SumOver(LAMBDA jk : Scale(t.dq[i][jk[1]][jk[2]], CMul(Dipole(x.q, x.d, i), Quad(y.q, y.t, y.w, jk[1], jk[2]))), QuadAt(y.q)), DipAt(x.q)), u.post7)
      qd == IF g.order < 4 \/ y.d = 0 \/ (x.t = 0 /\ x.w = 0) THEN Z ELSE
              Over(SumOver(LAMBDA k : SumOver(LAMBDA ij : Scale(t.qd[ij[1]][ij[2]][k], CMul(Quad(x.q, x.t, x.w, ij[1], ij[2]), Dipole(y.q, y.d, k))), QuadAt(x.q)), DipAt(y.q)), u.post7)
      oo == IF g.order < 5 \/ x.q + y.q # 0 THEN 0 ELSE
              (u.e5 * ((IF x.q = 0 THEN -4 ELSE IF IAbs(x.q) = 1 THEN 6 ELSE 0) * (x.d * y.o + x.o * y.d)
                   + (IF x.q = 0 THEN 216 ELSE IF IAbs(x.q) = 1 THEN -96 ELSE 24) * x.t * y.t)) \div Power5(g.r) IN
  CAdd(CAdd(dd, dq), CAdd(qd, <<oo, 0>>))
\* st: the pair states (pairs of numbers of the pool) in the order of the system
Operator2(T, pool, g, u, st) ==
  LET t == TLCEval(IF g.r = 0 THEN [none |-> 0] ELSE [dd |-> DDT(g, u), dq |-> IF g.order < 4 THEN <<>> ELSE DQT(g, u), qd |-> IF g.order < 4 THEN <<>> ELSE QDT(g, u)])
      n == Len(pool)
      half == TLCEval([r \in 1 .. n |-> TLCEval([k \in 1 .. n |-> Half(T, pool, r, k)])]) IN
  TLCEval([i \in 1 .. Len(st) |-> TLCEval([j \in 1 .. Len(st) |->
     LET x == half[st[i][1]][st[j][1]]
         y == half[st[i][2]][st[j][2]]
         a == \E k \in 1 .. 2 : Art(pool[st[i][k]]) \/ Art(pool[st[j][k]]) IN
     CAdd(IF i = j THEN <<LevelEnergy(pool[st[i][1]]) + LevelEnergy(pool[st[i][2]]), 0>> ELSE Z,
          IF g.r = 0 \/ a THEN Z ELSE Between(x, y, g, u, t))])])
=============================================================================
