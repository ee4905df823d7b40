----------------------------- MODULE PerturbMC -----------------------------
(* Facts about perturbation theory that hold for every pair of atoms.      *)
(* The state is a pair, a set of pairs and an axis; each step draws others.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slip, Deep
P == INSTANCE Perturb
VARIABLES a, b, ax
Axes == {<<0, 5>>, <<5, 0>>, <<3, 4>>, <<-3, 4>>, <<4, -3>>}
Atoms(sp, s) == UNION {UNION {UNION {{[sp |-> sp, s |-> s, q |-> <<n, l, j, m>>] : m \in {x \in -j .. 2 - (j % 2) : (x + j) % 2 = 0 /\ x >= -1}}
                  : j \in P!Js(l, s)} : l \in 0 .. n - 1} : n \in 2 .. 3}
Singles == Atoms("Rb", 1) \cup Atoms("Sr3", 2) \cup Atoms("Sr1", 0)
Init == /\ \E s \in Singles : a = <<s, s>> /\ b = <<s, s>>
        /\ ax = <<0, 5>>
Abs1(x) == IF x < 0 THEN -x ELSE x
\* slips a program may make: the middle j of a triplet forgotten, the wrong l between two that differ by 2
Seen(v) == /\ Slip = "middle" => ~(v[1].s = 2 /\ v[1].q[3] = 2 * v[1].q[2])
           /\ Slip = "between" => ~(Abs1(a[1].q[2] - b[1].q[2]) = 2)
Drawn(x) == {v \in P!Virtual(x, x, 1) : Seen(v)}
Step == \/ \E v \in {IF Drawn(b) = {} THEN b ELSE RandomElement(Drawn(b))} : b' = v /\ a' = a /\ ax' = ax
        \/ \E v \in {IF Drawn(a) = {} THEN a ELSE RandomElement(Drawn(a))} : a' = v /\ b' = b /\ ax' = ax
        \/ \E c \in Axes : ax' = c /\ UNCHANGED <<a, b>>
Near == TLCGet("level") <= Deep
Spec == Init /\ [][Step]_<<a, b, ax>>
\* the interaction is symmetric
Symmetric == P!V(a, b, ax, 0) = P!V(b, a, ax, 0)
\* what is visited between two pairs does not depend on the direction of travel
Back == P!Virtual(a, b, 1) = P!Virtual(b, a, 1)
\* exactly the pairs that both interact with are visited
Used == LET all == {<<x, y>> : x \in P!Reached(a[1], 1, 8), y \in P!Reached(a[2], 1, 8)}
        IN {v \in P!Virtual(a, b, 1) : Seen(v)} =
           {v \in all : /\ P!Coupled(v[1], b[1]) /\ P!Coupled(v[2], b[2])
                        /\ \A k \in 1 .. 2 : /\ v[k].q[1] >= P!Min2(a[k].q[1], b[k].q[1]) - 1
                                             /\ v[k].q[1] <= P!Max2(a[k].q[1], b[k].q[1]) + 1
                                             /\ v[k].q[2] < v[k].q[1]}
\* nothing visited is degenerate with the pairs, so the coefficients are finite
Finite == P!Energy(a) \notin {P!Energy(v) : v \in P!Virtual(a, b, 1)}
\* along the axis the total magnetic number is kept
Axial == (ax = <<0, 5>> /\ P!V(a, b, ax, 0) # 0) => a[1].q[4] + a[2].q[4] = b[1].q[4] + b[2].q[4]
=============================================================================
