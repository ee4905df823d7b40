-------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* Pair states and symmetry sectors. One-atom states <<n, l, 2j, 2m>> (a   *)
(* one-atom basis vector is labelled the same way; of l only the parity    *)
(* matters) with integer energies. A pair is <<a, b>>, positions in the    *)
(* two bases. The symmetry operations map a pair to a pair with a sign:    *)
(*   inversion    |a b> -> -(-1)^(la+lb) |b a>                             *)
(*   permutation  |a b> -> -|b a>                                          *)
(*   reflection   |a b> -> (-1)^(la+lb+ja+jb+ma+mb) |a- b->                *)
(* where a- has the opposite m. A sector fixes the sign (+1, -1) of each   *)
(* chosen operation (0: not chosen) and the total m, up to its sign when   *)
(* reflection is chosen.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
NoM == 99999
Sg(x) == IF x % 2 = 0 THEN 1 ELSE -1
IAbs(x) == IF x < 0 THEN -x ELSE x
ParL(S1, S2, p) == Sg(S1[p[1]][2] + S2[p[2]][2])
TwoM(S1, S2, p) == S1[p[1]][4] + S2[p[2]][4]
Partner(S, a) == CHOOSE b \in 1 .. Len(S) : S[b] = [S[a] EXCEPT ![4] = -@]
\* operations as [to |-> pair, s |-> sign]
Inv(S1, S2, p) == [to |-> <<p[2], p[1]>>, s |-> -ParL(S1, S2, p)]
Per(S1, S2, p) == [to |-> <<p[2], p[1]>>, s |-> -1]
Ref(S1, S2, p) == [to |-> <<Partner(S1, p[1]), Partner(S2, p[2])>>,
   s |-> ParL(S1, S2, p) * Sg((S1[p[1]][3] + S2[p[2]][3]) \div 2) * Sg(TwoM(S1, S2, p) \div 2)]
Apply(g, S1, S2, x) ==
  LET step(y, o) == LET z == CASE o = "i" -> Inv(S1, S2, y.to) [] o = "p" -> Per(S1, S2, y.to)
                               [] o = "r" -> Ref(S1, S2, y.to) IN [to |-> z.to, s |-> y.s * z.s]
      a == IF "i" \in g THEN step(x, "i") ELSE x
      b == IF "p" \in g THEN step(a, "p") ELSE a IN
  IF "r" \in g THEN step(b, "r") ELSE b
Chosen(sym) == (IF sym.inv = 0 THEN {} ELSE {"i"}) \cup (IF sym.per = 0 THEN {} ELSE {"p"})
               \cup (IF sym.ref = 0 THEN {} ELSE {"r"})
Chi(sym, g) == (IF "i" \in g THEN sym.inv ELSE 1) * (IF "p" \in g THEN sym.per ELSE 1)
               * (IF "r" \in g THEN sym.ref ELSE 1)
Energy(E1, E2, p) == E1[p[1]] + E2[p[2]]
InWindow(e, cut) == cut < 0 \/ IAbs(e) <= cut
RightM(S1, S2, sym, p) == \/ sym.rot = NoM \/ TwoM(S1, S2, p) = 2 * sym.rot
                          \/ (sym.ref # 0 /\ TwoM(S1, S2, p) = -2 * sym.rot)
Pairs(S1, S2) == (1 .. Len(S1)) \X (1 .. Len(S2))
Allowed(S1, S2, E1, E2, cut, sym) ==
   {p \in Pairs(S1, S2) : InWindow(Energy(E1, E2, p), cut) /\ RightM(S1, S2, sym, p)}
\* dimension of the sector inside a set of pairs closed under the operations
Dim(S1, S2, A, sym) ==
  LET G == SUBSET Chosen(sym)
      term(g, p) == LET y == Apply(g, S1, S2, [to |-> p, s |-> 1]) IN IF y.to = p THEN Chi(sym, g) * y.s ELSE 0
      tr(g) == MapThenSumSet(LAMBDA p : term(g, p), A) IN
  MapThenSumSet(tr, G) \div Cardinality(G)
\* a vector (function from pairs with non-zero amplitude to amplitudes) of the sector
InSector(S1, S2, v, sym) ==
  \A o \in Chosen(sym) : \A p \in DOMAIN v :
     LET y == Apply({o}, S1, S2, [to |-> p, s |-> 1]) IN
     y.to \in DOMAIN v /\ v[y.to] = Chi(sym, {o}) * y.s * v[p]
=============================================================================
