----------------------------- MODULE EngineOpMC -----------------------------
(* Properties of the specification of the engine's matrices itself.         *)
EXTENDS EngineOp
CONSTANTS Fields, Firsts, Expos
VARIABLES c
MCFields == {<<0, 0, 0, 0, 0, 0>>, <<0, 0, 2000, 0, 0, 1000>>, <<1000, -2000, 1000, 2000, 1000, -1000>>, <<0, 0, 0, 1000, 2000, 2000>>}
MCFirsts == {<<60, 0, 1, 1>>, <<60, 0, 1, -1>>}
MCFieldsFew == {<<0, 0, 2000, 0, 0, 1000>>, <<1000, -2000, 1000, 2000, 1000, -1000>>}
Base(s, t, f, x) == [same |-> TRUE, a1 |-> TRUE, a2 |-> TRUE, sp1 |-> "Rb", sp2 |-> "Rb", real |-> FALSE, fy |-> TRUE, const |-> TRUE, steps |-> 1, r |-> TRUE,
   rmin |-> 1000, rmax |-> 1000, s1 |-> s, s2 |-> t, dn |-> 0, dl |-> 1, dj |-> -1, dm |-> -1, deltae |-> -1, pn |-> -1, pl |-> -1, pj |-> -1, pm |-> -1,
   fmin |-> f, fmax |-> f, dia |-> TRUE, expo |-> x, deltapair |-> -1]
Init == c \in {Base(s, t, f, x) : s \in Firsts, t \in Firsts, f \in Fields, x \in Expos}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
st1 == TLCEval(SeqOf(States(c, 3)))
pairs == TLCEval(SeqOf({<<x, y>> : x, y \in States(c, 3)}))
Op(q, sym) == TLCEval(OpTwo(q, FieldAt(q, 0), 1, sym, pairs, st1, st1))
No == <<P!NA, P!NA, P!NA, P!NA>>
SelfAdjoint == LET h == Op(c, No) IN \A i, j \in 1 .. Len(pairs) : h[i][j] = Conj(h[j][i])
SelfAdjointOne == LET h == TLCEval(OpOne(c, 3, FieldAt(c, 0), st1)) IN \A i, j \in 1 .. Len(st1) : h[i][j] = Conj(h[j][i])
\* the blocks of a symmetry of the Hamiltonian add up to the whole
Whole(q, blocks) == LET h == Op(q, No)
                        b == TLCEval([k \in 1 .. Len(blocks) |-> Op(q, blocks[k])]) IN
  \A i, j \in 1 .. Len(pairs) : h[i][j] = SumC(LAMBDA k : b[k][i][j], Len(blocks))
Free0 == [c EXCEPT !.fmin = <<0, 0, 0, 0, 0, 0>>, !.fmax = <<0, 0, 0, 0, 0, 0>>]
Blocks1(k) == <<[No EXCEPT ![k] = 1], [No EXCEPT ![k] = -1]>>
\* exchange up to dipole-dipole interaction (in any field), inversion at every order (without electric field)
ByExchange == Whole([c EXCEPT !.expo = 3], Blocks1(2))
ByInversion == Whole([c EXCEPT !.fmin = <<0, 0, 0, @[4], @[5], @[6]>>, !.fmax = <<0, 0, 0, @[4], @[5], @[6]>>], Blocks1(1))
ByReflection == Whole([Free0 EXCEPT !.expo = 0], Blocks1(3))
ByAll == Whole([Free0 EXCEPT !.expo = 0], <<<<1, 1, 1, P!NA>>, <<1, 1, -1, P!NA>>, <<1, -1, 1, P!NA>>, <<1, -1, -1, P!NA>>,
                                            <<-1, 1, 1, P!NA>>, <<-1, 1, -1, P!NA>>, <<-1, -1, 1, P!NA>>, <<-1, -1, -1, P!NA>>>>)
\* (exchange is no symmetry of the next order)
Perm4 == Whole(c, Blocks1(2))
ByMomentum == Whole(Free0, [k \in 1 .. 9 |-> <<P!NA, P!NA, P!NA, k - 5>>])
=============================================================================
