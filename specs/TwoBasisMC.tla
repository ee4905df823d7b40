----------------------------- MODULE TwoBasisMC -----------------------------
(***************************************************************************)
(* The sectors of a two-atom basis partition it: for any chosen operations *)
(* the dimensions over all signs add up to the number of products, the     *)
(* operations are involutions, commute, and turn products into products.   *)
(* Slip "double": a swap is forgotten in the inversion.                    *)
(***************************************************************************)
EXTENDS TwoBasis
CONSTANT Slip
VARIABLES q, g
A == <<60, 0, 1, 1, 0>>
Pools == {<<A, [A EXCEPT ![4] = -1], <<60, 1, 3, 3, 0>>, <<60, 1, 3, -3, 0>> >>,
          <<A, [A EXCEPT ![4] = -1], <<60, 1, 1, 1, 0>>, <<60, 1, 1, -1, 0>> >>,
          <<<<60, 0, 0, 0, 0>>, <<60, 1, 2, 0, 0>>, <<60, 1, 2, 2, 0>>, <<60, 1, 2, -2, 0>> >>,
          <<<<60, 1, 2, 2, 0>>, <<60, 1, 2, -2, 0>>, <<60, 2, 4, 4, 0>>, <<60, 2, 4, -4, 0>> >> }
Plain == [st |-> <<1, 2, 3, 4>>, k |-> 4, E |-> <<0, 0, 3000, 3000>>,
          B |-> [r \in 1 .. 4 |-> [i \in 1 .. 4 |-> IF r = i THEN <<1000, 0>> ELSE Z]]]
\* pairs of mirror states combined with +-i (half-integer momenta)
Mirrored == [Plain EXCEPT !.B = [r \in 1 .. 4 |-> [i \in 1 .. 4 |->
     IF (r + 1) \div 2 # (i + 1) \div 2 THEN Z ELSE IF r % 2 = 1 THEN <<707, 0>> ELSE IF i % 2 = 1 THEN <<0, 707>> ELSE <<0, -707>>]]]
Full == {"p", "i", "r"}
Q(pool, o, s) == [pool |-> pool, one |-> o, two |-> o, same |-> TRUE, n |-> <<>>, l |-> <<>>, j |-> <<>>, m |-> <<>>, en |-> <<Free, Free>>,
                  field |-> FALSE, perm |-> s[1], inv |-> s[2], refl |-> s[3], rot |-> <<>>, pairs |-> <<>>, add |-> <<>>]
Init == /\ q \in {Q(pool, o, <<0, 0, 0>>) : pool \in Pools, o \in {Plain, Mirrored}}
        /\ g \in SUBSET Full
Next == UNCHANGED <<q, g>>
Spec == Init /\ [][Next]_<<q, g>>
Signs(o) == IF o \in g THEN {1, -1} ELSE {0}
With(s) == [q EXCEPT !.perm = s[1], !.inv = s[2], !.refl = s[3]]
Img(o, v) == IF Slip = "double" /\ o = "i" THEN [p \in DOMAIN v |-> Scale(Sign(q, o, p), v[p])] ELSE Image(q, o, v)
V == Vectors(q)
Whole == SumIn(LAMBDA s : Dim(With(s), V), Signs("p") \X Signs("i") \X Signs("r")) = Cardinality(V)
\* operations are involutions on pairs
Twice == \A x \in V : \A o \in Full : Img(o, Img(o, x.v)) = x.v
Commute == \A x \in V : \A o, u \in Full : Img(o, Img(u, x.v)) = Img(u, Img(o, x.v))
Inside == \A x \in V : \A o \in g : q.one = Plain => \E y \in V : DOMAIN y.v = DOMAIN Img(o, x.v) 
\* swapping both ways leaves the parity: permutation after inversion does not move a pair state
Parity == \A x \in V : DOMAIN Img("p", Img("i", x.v)) = DOMAIN x.v
=============================================================================
