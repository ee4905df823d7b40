------------------------------ MODULE BasisMC ------------------------------
(* Two one-atom bases and their product, removals in any order.            *)
EXTENDS Basis, TLC, Json
VARIABLES one, two
Starts == {<<1, 0, 1, 1>>, <<2, 1, 1, -1>>}
Cfgs == {[dn |-> 0, dl |-> x, dj |-> y, dm |-> z] : x \in {-1, 0}, y \in {-1, 0}, z \in {-1, 0}}
Ordered(S) == SetToSortSeq(S, Lt)
Mk(S) == [k \in 1 .. Cardinality(S) |-> [i |-> k - 1, s |-> Ordered(S)[k]]]
Init == \E s \in Starts, t \in Starts, c \in Cfgs :
          /\ Cardinality(Allowed(s, c)) <= 3 /\ Cardinality(Allowed(t, c)) <= 2
          /\ one = Mk(Allowed(s, c)) /\ two = Product(one, Mk(Allowed(t, c)))
Next == \E keep \in SUBSET (0 .. Len(two) - 1) : two' = Removed(two, keep) /\ UNCHANGED one
Spec == Init /\ [][Next]_<<one, two>>
AlwaysNumbered == InOrder(one) /\ InOrder(two) /\ Numbered(two)
AlwaysProducts == \A k \in 1 .. Len(two) : SubSeq(two[k].s, 1, 4) \in {one[m].s : m \in 1 .. Len(one)}
NoTwice == \A k, m \in 1 .. Len(two) : k # m => two[k].s # two[m].s
\* removing in two steps is the same as removing at once
StepwiseIsAtOnce == \A keep \in SUBSET (0 .. Len(two) - 1) :
   LET first == Removed(two, keep \cup {0})
       k2 == {x \in 0 .. Len(first) - 1 : first[x + 1].s \in {two[y + 1].s : y \in keep}}
   IN Len(two) > 0 => Removed(first, k2) = Removed(two, keep)
\* all small settings, for the driver
AllStarts == UNION {UNION {UNION {{<<n, l, j, m>> : m \in {x \in -j .. j : (x + j) % 2 = 0}}
              : j \in {x \in {2 * l - 1, 2 * l + 1} : x > 0}} : l \in 0 .. n - 1} : n \in 1 .. 3}
Emit == \A s \in AllStarts, dn \in 0 .. 1, dl \in -1 .. 1, dj \in -1 .. 1, dm \in -1 .. 1 :
   PrintT("@@BEHAVIOUR@@" \o ToJson(s \o <<dn, dl, dj, dm>>))
GInit == one = <<>> /\ two = <<>>
GSpec == GInit /\ [][FALSE]_<<one, two>>
=============================================================================
