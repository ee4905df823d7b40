------------------------------- MODULE PlotMC -------------------------------
(* Rotation elements are kept in a dictionary per angle which is stored in a *)
(* file when the interface is closed. Elements that symmetry makes equal up  *)
(* to a sign share one entry. Whatever was asked before, was stored, or was  *)
(* interrupted: an answer is the element. Slips of this design break it.     *)
EXTENDS Plot, TLC
CONSTANTS Slip, Angles, Js
VARIABLES mem, disk, torn, tell
vars == <<mem, disk, torn, tell>>
A2 == {<<1, 2>>, <<-1, 3>>}
A3 == {<<1, 2>>, <<-1, 3>>, <<3, 1>>}
Queries == {[j |-> j, a |-> a, b |-> b, t |-> t] : j \in Js, a \in -2..2, b \in -2..2, t \in Angles}
Ok(q) == q.a \in -(q.j)..q.j /\ q.b \in -(q.j)..q.j /\ (q.a + q.j) % 2 = 0 /\ (q.b + q.j) % 2 = 0
Real(q) == Elem(q.j, q.a, q.b, q.t[1], q.t[2])
\* the representative, and the sign against it
Flip(r) == IF r.a + r.b < 0 THEN [s |-> r.s * (IF Slip = "flip" THEN 1 ELSE Sgn((r.b - r.a) \div 2)), a |-> -(r.a), b |-> -(r.b)] ELSE r
Swap(r) == IF r.b < r.a THEN [s |-> r.s * (IF Slip = "swap" THEN 1 ELSE Sgn((r.b - r.a) \div 2)), a |-> r.b, b |-> r.a] ELSE r
Rep(q) == Swap(Flip([s |-> 1, a |-> q.a, b |-> q.b]))
Key(q) == LET r == Rep(q) IN <<q.j, r.a, r.b, IF Slip = "angle" THEN 0 ELSE q.t>>
Empty == <<>>
Init == mem = Empty /\ disk = Empty /\ torn = FALSE /\ tell = "nothing"
Have(f, k) == k \in DOMAIN f
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Ask(q) == LET k == Key(q)  r == Rep(q)
              e == Elem(q.j, r.a, r.b, q.t[1], q.t[2])
              m == IF Have(mem, k) THEN mem ELSE Put(mem, k, e)
          IN /\ mem' = m /\ UNCHANGED <<disk, torn>>
             /\ tell' = IF r.s * m[k] = Real(q) THEN "right" ELSE "wrong"
Save == mem # Empty /\ disk' = mem /\ torn' = FALSE /\ tell' = "nothing" /\ UNCHANGED mem
Open == /\ UNCHANGED <<disk, torn>>
        /\ IF torn THEN tell' = "fails" /\ mem' = Empty ELSE tell' = "nothing" /\ mem' = disk
\* the process dies while it stores: in place, or in a file that is renamed once it is complete
Die == mem # Empty /\ mem' = Empty /\ tell' = "nothing" /\ disk' = disk /\ torn' = (torn \/ Slip = "torn")
Next == (\E q \in Queries : Ok(q) /\ Ask(q)) \/ Save \/ Open \/ Die
Spec == Init /\ [][Next]_vars
Right == tell \notin {"wrong", "fails"}
Few == Cardinality(DOMAIN mem) <= 2
=============================================================================
