------------------------------ MODULE ReaderMC ------------------------------
(***************************************************************************)
(* An engine calculates parts with a few matrices each and may be killed;   *)
(* the reader works through its lines while the interface takes what is     *)
(* there. Nothing is shown in the wrong place, twice or never.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slip, Big
R == INSTANCE Reader
VARIABLES parts, mats, said, pipe, s, shown, dead, stopped
vars == <<parts, mats, said, pipe, s, shown, dead, stopped>>
N == IF Big THEN 3 ELSE 2
Plans == {<<3, 2>>, <<0, 1, 2>>, <<1>>}
\* parts: still to do, mats: matrices still to be said of the current part, said: what was said of which part
Init == parts \in Plans /\ mats = {} /\ said = <<>> /\ pipe = <<>> /\ s = R!Clean /\ shown = <<<<>>, <<>>, <<>>>> /\ dead = FALSE /\ stopped = FALSE
Say(xs) == pipe' = pipe \o xs
Part == /\ ~dead /\ mats = {} /\ parts # <<>> /\ Len(pipe) < 4
        /\ Say(<<[k |-> "TYP", n |-> parts[1]], [k |-> "STA", f |-> "states"], [k |-> "Text"], [k |-> "TOT", n |-> N]>>)
        /\ mats' = {<<parts[1], i>> : i \in 0 .. N - 1} /\ parts' = Tail(parts) /\ UNCHANGED <<said, s, shown, dead, stopped>>
Mat == /\ ~dead /\ Len(pipe) < 4
       /\ \E m \in mats : /\ Say(<<[k |-> "DIM", n |-> 5], [k |-> "OUT", step |-> m[2], blocks |-> 1, block |-> 0, f |-> ToString(m)]>>)
                          /\ mats' = mats \ {m} /\ said' = Append(said, m)
       /\ UNCHANGED <<parts, s, shown, dead, stopped>>
End == ~dead /\ mats = {} /\ parts = <<>> /\ dead' = TRUE /\ Say(<<[k |-> "END"], [k |-> "Text"]>>) /\ UNCHANGED <<parts, mats, said, s, shown, stopped>>
Die == ~dead /\ dead' = TRUE /\ UNCHANGED <<parts, mats, said, pipe, s, shown, stopped>>
Read == /\ pipe # <<>> /\ ~stopped
        /\ s' = IF Slip = "mod" /\ pipe[1].k = "OUT" THEN [R!Line(s, pipe[1]) EXCEPT !.mats = [s.mats EXCEPT ![(s.part % 2) + 1] = Append(@, <<pipe[1].step, 1, 0, pipe[1].f>>)]]
                ELSE IF Slip = "reset" /\ pipe[1].k = "TYP" THEN [R!Line(s, pipe[1]) EXCEPT !.mats = R!Clean.mats]
                ELSE R!Line(s, pipe[1])
        /\ pipe' = Tail(pipe) /\ stopped' = s'.fin /\ UNCHANGED <<parts, mats, said, shown, dead>>
Stop == /\ ~stopped /\ dead /\ pipe = <<>> /\ stopped' = TRUE
        /\ s' = IF Slip = "abort" THEN s ELSE R!Clean
        /\ UNCHANGED <<parts, mats, said, pipe, shown, dead>>
Take == \E w \in 1 .. 3 : /\ s.mats[w] # <<>>
                          /\ shown' = [shown EXCEPT ![w] = Append(@, s.mats[w][1])]
                          /\ s' = [s EXCEPT !.mats[w] = Tail(@)]
                          /\ UNCHANGED <<parts, mats, said, pipe, dead, stopped>>
Next == Part \/ Mat \/ End \/ Die \/ Read \/ Stop \/ Take
Spec == Init /\ [][Next]_vars
Of(w) == SelectSeq(said, LAMBDA m : R!Show(m[1]) = w)
Row(m) == <<m[2], 1, 0, ToString(m)>>
\* shown and waiting are what was said, in order, in the right place
InPlace == \A w \in 1 .. 3 : LET x == shown[w] \o s.mats[w] IN Len(x) <= Len(Of(w)) /\ \A k \in 1 .. Len(x) : x[k] = Row(Of(w)[k])
AllThere == s.fin => \A w \in 1 .. 3 : Len(shown[w]) + Len(s.mats[w]) = Len(Of(w))
Forgotten == stopped /\ ~s.fin => s = R!Clean
Counted == s.part # 0 \/ s.tot > 0 => s.cur <= N
=============================================================================
