----------------------------- MODULE BasisTrace -----------------------------
(* Bases built, combined and reduced by the real classes. Slots hold bases. *)
EXTENDS TraceBase
VARIABLES slot, made
B == INSTANCE Basis
TInit == TrackInit /\ l = 1 /\ slot = [x \in 0 .. 3 |-> <<>>] /\ made = [x \in 0 .. 3 |-> <<>>]
\* numbers come as rows [number, n, l, 2j, 2m (, n, l, 2j, 2m)]
Rows(r) == [k \in 1 .. Len(r) |-> [i |-> r[k][1], s |-> Tail(r[k])]]
Cfg(e) == [dn |-> e.d[1], dl |-> e.d[2], dj |-> e.d[3], dm |-> e.d[4]]
Put(x, v) == slot' = [slot EXCEPT ![x] = v]
\* what a basis tells about its making: species, start states, distances
Told(e) == [sp |-> e.sp, q |-> e.q, d |-> e.ds]
Making(x, m) == Told(Ev) = m /\ made' = [made EXCEPT ![x] = m]
Ordered(s, t) == IF B!Lt(t, s) THEN <<t, s>> ELSE <<s, t>>
One == /\ IsEvent("One")
       /\ LET b == Rows(Ev.rows) IN
          /\ B!IsBasisOf(b, B!Allowed(Ev.start, Cfg(Ev))) /\ B!InOrder(b)
          /\ Ev.dim = Len(b) /\ Ev.size = Len(b) /\ Put(Ev.slot, b)
       /\ Making(Ev.slot, [sp |-> <<Ev.of>>, q |-> <<Ev.start>>, d |-> Ev.d])
Both == /\ IsEvent("Both")
        /\ LET b == Rows(Ev.rows) IN
           /\ B!IsBasisOf(b, B!AllowedAny({Ev.start, Ev.start2}, Cfg(Ev))) /\ B!Numbered(b)
           /\ Ev.dim = Len(b) /\ Ev.size = Len(b) /\ Put(Ev.slot, b)
        /\ Making(Ev.slot, [sp |-> <<"Rb">>, q |-> Ordered(Ev.start, Ev.start2), d |-> Ev.d])
Refused == IsEvent("Refused") /\ Ev.why /\ UNCHANGED <<slot, made>>
Two == /\ IsEvent("Two")
       /\ LET b == Rows(Ev.rows) IN
          /\ b = B!Product(slot[Ev.a], slot[Ev.b]) /\ Ev.dim = Len(b) /\ Ev.size = Len(b)
          /\ Put(Ev.slot, b)
       /\ LET x == made[Ev.a]
              y == made[Ev.b] IN
          Making(Ev.slot, [sp |-> <<x.sp[1], y.sp[1]>>, d |-> x.d,
                           q |-> IF Ev.a = Ev.b THEN x.q ELSE x.q \o y.q])
\* one-atom basis taken out of a pair basis
Part == /\ IsEvent("Part")
        /\ LET b == Rows(Ev.rows) IN
           /\ B!IsBasisOf(b, B!Parts(slot[Ev.a], Ev.which)) /\ B!Numbered(b)
           /\ Ev.dim = Len(b) /\ Put(Ev.slot, b)
        /\ LET x == made[Ev.a] IN
           Making(Ev.slot, [sp |-> <<x.sp[Ev.which]>>, q |-> <<x.q[Ev.which]>>, d |-> x.d])
Numbers(k) == {k[j] : j \in 1 .. Len(k)}
Remove == /\ IsEvent("Remove")
          /\ LET b == B!Removed(slot[Ev.slot], Numbers(Ev.keep)) IN
             /\ Rows(Ev.rows) = b /\ Ev.dim = Len(b) /\ Ev.size = Len(b) /\ Put(Ev.slot, b)
          /\ Making(Ev.slot, made[Ev.slot])
RemoveKeep == /\ IsEvent("RemoveKeep")
              /\ LET b == B!Kept(slot[Ev.slot], Numbers(Ev.keep)) IN
                 /\ Rows(Ev.rows) = b /\ Ev.size = Len(b) /\ Put(Ev.slot, b)
                 \* there is still room for every number in use
                 /\ \A k \in 1 .. Len(b) : b[k].i < Ev.dim
              /\ Making(Ev.slot, made[Ev.slot])
\* the start pair is found under the number reported for it, if it is there
Initial == /\ IsEvent("Initial")
           /\ LET b == slot[Ev.slot] IN
              (\E k \in 1 .. Len(b) : b[k].s = Ev.s)
                => \E k \in 1 .. Len(b) : b[k].s = Ev.s /\ b[k].i = Ev.i
           /\ UNCHANGED <<slot, made>>
Saved == IsEvent("Saved") /\ Rows(Ev.rows) = slot[Ev.slot] /\ UNCHANGED <<slot, made>>
TNext == One \/ Both \/ Refused \/ Two \/ Part \/ Remove \/ RemoveKeep \/ Initial \/ Saved
TSpec == TInit /\ [][TNext]_<<l, slot, made>>
=============================================================================
