------------------------------- MODULE PairMC -------------------------------
(* The sectors of all symmetry choices decompose the allowed pairs, and    *)
(* symmetrising a pair gives a vector of the sector or nothing.            *)
EXTENDS Pair, TLC
VARIABLES st, en, cut, ch, rot
Mult(n, x, j) == [i \in 1 .. j + 1 |-> <<n, x, j, 2 * i - 2 - j>>]
Systems == {Mult(1, 0, 1), Mult(1, 0, 1) \o Mult(2, 1, 1), Mult(2, 1, 3)}
Init == /\ st \in Systems /\ cut \in {-1, 1} /\ ch \in SUBSET {"i", "p", "r"} /\ rot \in {NoM, 0, 1}
        /\ \E f \in {(0 :> 0 @@ 1 :> 1), (0 :> 1 @@ 1 :> -1)} : en = [i \in 1 .. Len(st) |-> f[st[i][2]] * (IAbs(st[i][4]) \div 2 + 1)]
Spec == Init /\ [][FALSE]_<<st, en, cut, ch, rot>>
Syms == {[inv |-> i, per |-> p, ref |-> r, rot |-> rot] :
           i \in (IF "i" \in ch THEN {1, -1} ELSE {0}), p \in (IF "p" \in ch THEN {1, -1} ELSE {0}),
           r \in (IF "r" \in ch THEN {1, -1} ELSE {0})}
A(s) == Allowed(st, st, en, en, cut, s)
Decompose == LET s0 == CHOOSE s \in Syms : TRUE IN
   MapThenSumSet(LAMBDA s : Dim(st, st, A(s), s), Syms) = Cardinality(A(s0))
   /\ \A s \in Syms : Dim(st, st, A(s), s) >= 0
\* operations keep the set, are involutions and commute
Group == \A s \in Syms : \A p \in A(s) : \A o, q \in ch :
   /\ Apply({o}, st, st, [to |-> p, s |-> 1]).to \in A(s)
   /\ Apply({o}, st, st, Apply({o}, st, st, [to |-> p, s |-> 1])) = [to |-> p, s |-> 1]
   /\ Apply({o}, st, st, Apply({q}, st, st, [to |-> p, s |-> 1]))
        = Apply({q}, st, st, Apply({o}, st, st, [to |-> p, s |-> 1]))
\* number of pairs whose projection onto the sector does not vanish, one per orbit
Orbit(p) == {Apply(g, st, st, [to |-> p, s |-> 1]).to : g \in SUBSET ch}
Proj(s, p) == [q \in Orbit(p) |-> MapThenSumSet(LAMBDA g :
    LET y == Apply(g, st, st, [to |-> p, s |-> 1]) IN IF y.to = q THEN Chi(s, g) * y.s ELSE 0, SUBSET ch)]
Projections == \A s \in Syms :
   LET good == {p \in A(s) : \E q \in Orbit(p) : Proj(s, p)[q] # 0} IN
   /\ Cardinality({Orbit(p) : p \in good}) = Dim(st, st, A(s), s)
   /\ \A p \in good : InSector(st, st, Proj(s, p), s)
=============================================================================
