------------------------------ MODULE TwoBasis ------------------------------
(***************************************************************************)
(* Which basis a request for a two-atom system stands for: the products of *)
(* the one-atom vectors inside the restrictions, and of these the part     *)
(* that has the requested symmetry. Amplitudes and energies in 1/1000.     *)
(* q: one, two: the one-atom systems [st (numbers of the pool), B, E];     *)
(*   same: whether they are one system; n, l, j, m (ranges), en (window);  *)
(*   perm, inv, refl (+1, -1, 0: not chosen), rot (<<>>: any momentum);    *)
(*   pairs (of vectors, <<>>: all), add (pair states)                      *)
(* The operations act on pair states with these signs (as in module Pair): *)
(*   permutation |a b> -> -|b a>, inversion -(-1)^(la+lb) |b a>,           *)
(*   reflection (-1)^(la+lb+ja+jb+ma+mb) |-a -b>                           *)
(***************************************************************************)
EXTENDS One
Range(s) == {s[i] : i \in 1 .. Len(s)}
Milli(z) == <<z[1] \div 1000, z[2] \div 1000>>
Sg(x) == IF x % 2 = 0 THEN 1 ELSE -1
S(q, a) == q.pool[a]
In(list, x) == list = <<>> \/ \E i \in 1 .. Len(list) : list[i] = x
Within(q, s) == Art(s) \/ (In(q.n, s[1]) /\ In(q.l, s[2]) /\ In(q.j, s[3]) /\ In(q.m, s[4]))
\* vectors of a one-atom system that the restrictions leave
Kept(q, o) == {i \in 1 .. o.k : \A r \in 1 .. Len(o.st) : IAbs(o.B[r][i][1]) + IAbs(o.B[r][i][2]) > 1 => Within(q, S(q, o.st[r]))}
\* sequence of the numbers that are kept: positions after the restriction
Order(q, o) == SelectSeq([i \in 1 .. o.k |-> i], LAMBDA i : i \in Kept(q, o))
Free == 9999
Energy(q, p) == q.one.E[p[1]] + q.two.E[p[2]]
\* with fields the energies are rounded: one at the edge of the window may count or not
Slack(q) == IF q.field THEN 4 ELSE 0
InWindow(q, e) == (q.en[1] = Free \/ e > 1000 * q.en[1] - Slack(q)) /\ (q.en[2] = Free \/ e < 1000 * q.en[2] + Slack(q))
Close(q, e) == q.field /\ \E i \in 1 .. 2 : q.en[i] # Free /\ IAbs(e - 1000 * q.en[i]) <= 4
\* pairs of vectors that were asked for
Chosen(q) == LET a == Order(q, q.one)
                 b == Order(q, q.two) IN
  IF q.pairs = <<>> THEN Range(a) \X Range(b) ELSE {<<a[q.pairs[i][1] + 1], b[q.pairs[i][2] + 1]>> : i \in 1 .. Len(q.pairs)}
BadPairs(q) == \E i \in 1 .. Len(q.pairs) : q.pairs[i][1] >= Len(Order(q, q.one)) \/ q.pairs[i][2] >= Len(Order(q, q.two))
TwicePairs(q) == Cardinality(Range(q.pairs)) # Len(q.pairs)
TwoM(q, p) == S(q, p[1])[4] + S(q, p[2])[4]
HasArt(q, p) == Art(S(q, p[1])) \/ Art(S(q, p[2]))
\* momenta in units of one
RightM(q, p) == HasArt(q, p) \/ q.rot = <<>> \/ (\E i \in 1 .. Len(q.rot) : 2 * q.rot[i] = TwoM(q, p))
\* a product as a function from pair states to amplitudes
Product(q, v) ==
  LET rows(o, i) == {r \in 1 .. Len(o.st) : o.B[r][i] # Z}
      D == {<<r, t>> : r \in rows(q.one, v[1]), t \in rows(q.two, v[2])} IN
  [p \in {<<q.one.st[d[1]], q.two.st[d[2]]>> : d \in D} |->
     LET d == CHOOSE d \in D : p = <<q.one.st[d[1]], q.two.st[d[2]]>> IN Milli(CMul(q.one.B[d[1]][v[1]], q.two.B[d[2]][v[2]]))]
Listed(q) == {<<q.add[i][1], q.add[i][2]>> : i \in 1 .. Len(q.add)}
Vectors(q) == {[v |-> Product(q, p), e |-> Energy(q, p)] : p \in {x \in Chosen(q) : InWindow(q, Energy(q, x))}}
OwnEnergy(q, p) == 1000 * (LevelEnergy(S(q, p[1])) + LevelEnergy(S(q, p[2])))
OfList(q) == {[v |-> [x \in {p} |-> <<1000, 0>>], e |-> OwnEnergy(q, p)] : p \in Listed(q)}
\* those of the right momentum (a vector has a definite one whenever momenta are chosen)
Conserving(q, V) == {x \in V : \A p \in DOMAIN x.v : RightM(q, p)}
(*** operations ************************************************************)
Mirror(q, a) == IF Art(S(q, a)) THEN a ELSE LET s == S(q, a)
                                                T == {b \in 1 .. Len(q.pool) : q.pool[b] = [s EXCEPT ![4] = -@]} IN IF T = {} THEN 0 ELSE CHOOSE b \in T : TRUE
ParL(q, p) == Sg(S(q, p[1])[2] + S(q, p[2])[2])
To(q, o, p) == IF o = "r" THEN <<Mirror(q, p[1]), Mirror(q, p[2])>> ELSE <<p[2], p[1]>>
Sign(q, o, p) ==
  CASE o = "p" -> -1
    [] HasArt(q, p) -> 1
    [] o = "i" -> -ParL(q, p)
    [] OTHER -> ParL(q, p) * Sg((S(q, p[1])[3] + S(q, p[2])[3]) \div 2) * Sg(TwoM(q, p) \div 2)
At(v, p) == IF p \in DOMAIN v THEN v[p] ELSE Z
\* (all operations are their own inverse up to the sign, which is that of the preimage)
Image(q, o, v) == [p \in {To(q, o, x) : x \in DOMAIN v} |-> LET x == To(q, o, p) IN Scale(Sign(q, o, x), v[x])]
Ops(q) == (IF q.perm = 0 THEN {} ELSE {"p"}) \cup (IF q.inv = 0 THEN {} ELSE {"i"}) \cup (IF q.refl = 0 THEN {} ELSE {"r"})
Chi(q, o) == CASE o = "p" -> q.perm [] o = "i" -> q.inv [] OTHER -> q.refl
RECURSIVE SumSet(_, _)
SumSet(f(_), A) == IF A = {} THEN Z ELSE LET x == CHOOSE x \in A : TRUE IN CAdd(f(x), SumSet(f, A \ {x}))
RECURSIVE SumIn(_, _)
SumIn(f(_), A) == IF A = {} THEN 0 ELSE LET x == CHOOSE x \in A : TRUE IN f(x) + SumIn(f, A \ {x})
Dot2(v, w) == Milli(SumSet(LAMBDA p : CMul(Conj(v[p]), w[p]), DOMAIN v \cap DOMAIN w))
\* dimension of the symmetric part of what V spans
Dim(q, V) ==
  LET G == SUBSET Ops(q)
      one(o, g, v) == IF o \in g THEN Image(q, o, v) ELSE v
      im(g, v) == one("p", g, one("i", g, one("r", g, v)))
      chi(g) == (IF "p" \in g THEN q.perm ELSE 1) * (IF "i" \in g THEN q.inv ELSE 1) * (IF "r" \in g THEN q.refl ELSE 1)
      tr(g) == SumIn(LAMBDA x : chi(g) * Dot2(x.v, im(g, x.v))[1], V) IN
  (SumIn(tr, G) + 500 * Cardinality(G)) \div (1000 * Cardinality(G))
\* a vector has the symmetry
Symmetric(q, v) == \A o \in Ops(q) :
   \A p \in DOMAIN v : (HasArt(q, p) /\ o # "p") \/
      (LET a == At(v, To(q, o, p))
           b == Scale(Sign(q, o, p) * Chi(q, o), v[p]) IN IAbs(a[1] - b[1]) <= 3 /\ IAbs(a[2] - b[2]) <= 3)
(*** requests that are refused *********************************************)
RotOK(q) == q.refl = 0 \/ (\A i \in 1 .. Len(q.rot) : -q.rot[i] \in Range(q.rot))
Swapped(p) == <<p[2], p[1]>>
Lonely(q) == Ops(q) \cap {"p", "i"} # {} /\ \E p \in Listed(q) : p[1] # p[2] /\ Swapped(p) \notin Listed(q)
Wrong(q) == \E i \in 1 .. Len(q.add) : \E k \in 1 .. 2 : ~Art(S(q, q.add[i][k])) /\ S(q, q.add[i][k])[5] # q.species[k]
=============================================================================
