--------------------------------- MODULE Api ---------------------------------
(* Atom objects of the Python back end (pipy): what a configuration, in any  *)
(* of the forms it may have, means, and what updates, copies, deletions and  *)
(* making an object again from its parameters do to it. Half-integers are    *)
(* doubled; energies are those of the stand-in (module Pipy).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
P == INSTANCE Pipy
\* A setting: [two, same, at, meth, dia, real, pair, ref]: at[i] the atoms' settings, pair the pair's, ref the
\* fields at which the pair's window was laid down
\* a limit is [t |-> "none"], ["delta", d] around the start states, or ["range", lo, hi]
Lim(r, vals, unit) == CASE r.t = "none" -> <<>>
                        [] r.t = "delta" -> <<P!SetMin(vals) - (unit * r.a), P!SetMax(vals) + (unit * r.a)>>
                        [] OTHER -> <<r.a, r.b>>
Set(s) == {s[k] : k \in DOMAIN s}
QN(s) == s[1]
QL(s) == s[2]
QJ(s) == s[3]
QM(s) == s[4]
Lev(sp, s) == P!Level([sp |-> sp, n |-> s[1], l |-> s[2], j |-> s[3], m |-> s[4]])
\* momenta: "none", "cons" (that of the start states) or "list"
OneMom(a) == CASE a.mom.t = "none" -> <<>> [] a.mom.t = "cons" -> <<QM(a.st[1])>> [] OTHER -> a.mom.v
One(c, i) ==
  LET a == c.at[i] IN
  [sp |-> a.sp, meth |-> c.meth, real |-> c.real,
   n |-> Lim(a.n, {QN(s) : s \in Set(a.st)}, 1), l |-> Lim(a.l, {QL(s) : s \in Set(a.st)}, 1),
   j |-> Lim(a.j, {QJ(s) : s \in Set(a.st)}, 2), m |-> Lim(a.m, {QM(s) : s \in Set(a.st)}, 2),
   win |-> Lim(a.win, {Lev(a.sp, s) : s \in Set(a.st)}, 1), mom |-> OneMom(a), E |-> a.E, B |-> a.B, dia |-> c.dia]
\* the pair states a pair calculation is about
Second(c) == IF c.same THEN 1 ELSE 2
PairStates(c) ==
  LET s == c.at[1].st  t == c.at[Second(c)].st IN
  CASE c.pair.q.t = "given" -> c.pair.q.v
    [] c.same -> <<<<s[1], s[2]>>>>
    [] OTHER -> LET all == (DOMAIN s) \X (DOMAIN t)
                IN [x \in 1..Cardinality(all) |->
                     LET y == CHOOSE y \in all : Cardinality({z \in all : z[1] < y[1] \/ (z[1] = y[1] /\ z[2] <= y[2])}) = x
                     IN <<s[y[1]], t[y[2]]>>]
PairMom(c) == CASE c.pair.mom.t = "none" -> <<>>
                [] c.pair.mom.t = "cons" -> LET x == PairStates(c)[1] IN <<(QM(x[1]) + QM(x[2])) \div 2>>
                [] OTHER -> c.pair.mom.v
At0(c) == P!Shift(c.ref[1].E, c.ref[1].B) + P!Shift(c.ref[Second(c)].E, c.ref[Second(c)].B)
PairWin(c) == Lim(c.pair.win, {Lev(c.at[1].sp, x[1]) + Lev(c.at[Second(c)].sp, x[2]) + At0(c) : x \in Set(PairStates(c))}, 1)
Two(c) == [a |-> One(c, 1), b |-> One(c, Second(c)), meth |-> c.meth, real |-> c.real, win |-> PairWin(c), norm |-> c.pair.norm,
           angle |-> c.pair.angle, dist |-> c.pair.dist, order |-> c.pair.order, inv |-> c.pair.inv, per |-> c.pair.per,
           ref |-> c.pair.ref, mom |-> PairMom(c)]
System(c) == IF c.two THEN Two(c) ELSE One(c, 1)
\* ---- what can be done
Field(c) == [i \in DOMAIN c.at |-> [E |-> c.at[i].E, B |-> c.at[i].B]]
Made(c) == [x \in DOMAIN c \cup {"ref"} |-> IF x = "ref" THEN Field(c) ELSE c[x]]
\* an update names some components of the fields, and for pairs distance, angle and symmetries
Vec(v, u, names) == <<IF names[1] \in DOMAIN u THEN u[names[1]] ELSE v[1], IF names[2] \in DOMAIN u THEN u[names[2]] ELSE v[2],
                      IF names[3] \in DOMAIN u THEN u[names[3]] ELSE v[3]>>
UpdAtom(a, u) == [a EXCEPT !.E = Vec(@, u, <<"Ex", "Ey", "Ez">>), !.B = Vec(@, u, <<"Bx", "By", "Bz">>)]
Or(u, k, v) == IF k \in DOMAIN u THEN u[k] ELSE v
UpdPair(p, u) == [p EXCEPT !.dist = Or(u, "dist", @), !.angle = Or(u, "angle", @), !.inv = Or(u, "inv", @),
                           !.per = Or(u, "per", @), !.ref = Or(u, "ref", @)]
Update(c, u) == [c EXCEPT !.at = TLCEval([i \in DOMAIN c.at |-> UpdAtom(c.at[i], u)]),
                          !.pair = IF c.two THEN UpdPair(@, u) ELSE @]
\* the energy of a start state of an atom, in its fields
Energy(c, i, k) == Lev(c.at[i].sp, c.at[i].st[k]) + P!Shift(c.at[i].E, c.at[i].B)
=============================================================================
