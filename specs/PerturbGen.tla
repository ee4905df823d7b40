----------------------------- MODULE PerturbGen -----------------------------
(* Sets of pairs that interact with each other in second order (or, now    *)
(* and then, in first), an axis and a range of n, to be given to the real  *)
(* class. The pairs are found by walking along the interaction.            *)
EXTENDS Perturb, TLC, Json
CONSTANT MaxLen
VARIABLES set, ax, dn, salt, h
vars == <<set, ax, dn, salt, h>>
R(S) == RandomElement(S)
Axes == <<<<0, 5>>, <<0, 5>>, <<5, 0>>, <<-5, 0>>, <<0, -5>>, <<3, 4>>, <<-3, 4>>, <<4, -3>>, <<-4, -3>>>>
Weak == <<"Rb", "Rb", "Sr3", "Sr3", "Sr1">>
Firm == <<"Cs", "Ca3", "K">>
Spin(sp) == IF sp \in {"Sr3", "Ca3"} THEN 2 ELSE IF sp = "Sr1" THEN 0 ELSE 1
Start(sp, n, even) == LET s == Spin(sp)
                          q == R({x \in 0 .. Min2(n - 1, 4) : even = 2 \/ x % 2 = even})
                          j == R(Js(q, s))
                          m == R({x \in -j .. j : (x + j) % 2 = 0}) IN [sp |-> sp, s |-> s, q |-> <<n, q, j, m>>]
\* with one species both l are even or both are odd, lest pairs are degenerate with those they visit
Pick(k) == IF R(1 .. 3) = 1 /\ k > 0
           THEN <<Start(Weak[R(1 .. 5)], R(2 .. 8), 2), Start(Firm[R(1 .. 3)], R(2 .. 8), 2)>>
           ELSE IF R(1 .. 4) = 1 THEN <<Start(Firm[R(1 .. 3)], R({3, 30}), 2), Start(Weak[R(1 .. 5)], R({4, 31}), 2)>>
           ELSE LET e == R({0, 1})
                    w == Weak[R(1 .. 5)] IN
                <<Start(w, R({2, 3, 4, 40}), e), Start(w, R({2, 3, 5, 41}), e)>>
GInit == /\ ax = <<0, 5>> /\ dn = 0 /\ salt = 0 /\ set = <<>> /\ h = <<>>
Begin == /\ set = <<>>
         /\ \E p \in {Pick(1 + Len(h))} : set' = <<p>>
         /\ \E a \in {Axes[R(1 .. 9 + 0 * Len(h))]} : ax' = a
         /\ \E d \in {R({0, 0, 1, 1, 2})} : dn' = d
         /\ \E s \in {R(0 .. 99)} : salt' = s
         /\ h' = h
In(v) == \E i \in 1 .. Len(set) : set[i] = v
\* two steps away, within what is visited
Two(x) == LET one == Virtual(x, x, 1) IN
          IF one = {} THEN x ELSE LET v == R(one) IN R(Virtual(v, v, dn))
Grow == /\ set # <<>> /\ Len(set) < 4
        /\ \E x \in {set[R(1 .. Len(set))]} : \E y \in {IF R(1 .. 6) = 1 /\ Virtual(x, x, 1) # {} THEN R(Virtual(x, x, 1)) ELSE Two(x)} :
              IF In(y) THEN UNCHANGED set ELSE set' = Append(set, y)
        /\ UNCHANGED <<ax, dn, salt, h>>
Done == /\ set # <<>>
        /\ h' = Append(h, [pairs |-> set, ax |-> ax, dn |-> dn, salt |-> salt]) /\ set' = <<>>
        /\ UNCHANGED <<ax, dn, salt>>
GNext == \E k \in {R(1 .. 4 + 0 * Len(set))} : IF set = <<>> THEN Begin ELSE IF k = 1 \/ Len(set) = 4 THEN Done ELSE Grow
GSpec == GInit /\ [][GNext]_vars
Emit == Len(h) = MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson(h))
Stop == Len(h) <= MaxLen
=============================================================================
