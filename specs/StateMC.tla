------------------------------ MODULE StateMC ------------------------------
(* Laws of comparison and matching over a small universe of states.        *)
EXTENDS State, FiniteSets, Json
VARIABLES a, b, d
R(sp, n, l, j, m) == [k |-> "R", sp |-> sp, q |-> <<n, l, j, m>>]
U == {R(sp, n, l, j, m) : sp \in {<<82, 98>>, <<83, 114, 49>>}, n \in {1, ARB}, l \in {0, ARB},
                          j \in {1, 2 * ARB}, m \in {-1, 1, 2 * ARB}}
     \cup {[k |-> "A", sp |-> sp, q |-> <<0, 0, 0, 0>>] : sp \in {<<82, 98>>, <<82>>}}
Init == a \in U /\ b \in U /\ d \in U
Spec == Init /\ [][FALSE]_<<a, b, d>>
Trichotomy == /\ (Lt(a, b) \/ Lt(b, a) \/ Eq(a, b)) /\ ~(Lt(a, b) /\ Lt(b, a))
              /\ (Eq(a, b) => ~Lt(a, b) /\ ~Lt(b, a))
Transitive == Lt(a, b) /\ Lt(b, d) => Lt(a, d)
EqIsMutual == Eq(a, b) => Match(a, b) /\ Match(b, a)
MatchTransitive == Match(a, b) /\ Match(b, d) => Match(a, d)
MatchAntisym == Match(a, b) /\ Match(b, a) => Eq(a, b)
NoWildcardIsEquality == ~Generalized(b) => (Match(a, b) <=> Eq(a, b))
PairOrder == /\ Lt2(<<a, b>>, <<b, d>>) \/ Lt2(<<b, d>>, <<a, b>>) \/ Eq2(<<a, b>>, <<b, d>>)
             /\ ~(Lt2(<<a, b>>, <<b, d>>) /\ Lt2(<<b, d>>, <<a, b>>))
ReflectTwice == Eq(Reflected(Reflected(a)), a)
=============================================================================
