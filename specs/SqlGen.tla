------------------------------- MODULE SqlGen -------------------------------
(* Random behaviours of the statement specification, printed as operations. *)
EXTENDS Sql, TLC, Json
CONSTANT MaxLen
VARIABLE h
GInit == Init /\ h = <<>>
R0 == IF run = Null THEN Rows(cur, tab, par) ELSE run
Rr == IF cur \in {"sel", "ge", "cnt"} /\ R0 # <<>> THEN Head(R0) ELSE Null
GNext == /\ Len(h) < MaxLen
         /\ \/ \E q \in {RandomElement(Queries)} : Set(q) /\ h' = Append(h, "set " \o q)
            \/ \E o \in {"ok", "err"} : Prepare(o) /\ h' = Append(h, "prepare")
            \/ Reset("ok") /\ h' = Append(h, "reset")
            \/ ExecBad("err") /\ h' = Append(h, "execbad")
            \/ \E i \in {RandomElement(1 .. 5)}, v \in {RandomElement(Ns)} : (Bind(i, v, "ok") \/ (~ENABLED Bind(i, v, "ok") /\ Bind(i, v, "err")))
                              /\ h' = Append(h, "bind " \o ToString(i) \o " " \o ToString(v))
            \/ \E v \in {RandomElement(Ns)} : prep /\ valid /\ cur = "ins" /\ par' = [i \in 1 .. 4 |-> v]
                         /\ run = Null /\ ~fin
                         /\ UNCHANGED <<tab, uniq, sql, prep, cur, valid, run, row, failed, fin>>
                         /\ h' = h \o [i \in 1 .. 4 |-> "bind " \o ToString(i) \o " " \o ToString(v)]
            \/ \E o \in {"row", "done", "err"} : Step(o, Rr) /\ h' = Append(h, "step")
            \/ \E n \in {RandomElement(Ns)} : ExecIns(<<Len(tab), n, n, n>>, "ok") /\ h' = Append(h, "execins " \o ToString(n))
            \/ ForEach("ok", IF cur \in {"sel", "ge", "cnt"} THEN R0 ELSE <<>>) /\ h' = Append(h, "foreach")
GSpec == GInit /\ [][GNext]_<<vars, h>>
Emit == Len(h) >= MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson(h))
=============================================================================
