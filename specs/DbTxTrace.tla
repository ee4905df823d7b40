----------------------------- MODULE DbTxTrace -----------------------------
(* Calls and returns of several processes as seen by their coordinator.     *)
EXTENDS TraceBase
VARIABLES com, loc, tx, held, pend
Prs == 0 .. 4
D == INSTANCE DbTx WITH Procs <- Prs, Vals <- {}, None <- NoValue
TInit == TrackInit /\ l = 1 /\ D!Init
Reset == /\ IsEvent("Reset")
         /\ com' = {} /\ loc' = [p \in Prs |-> {}] /\ tx' = [p \in Prs |-> "none"]
         /\ held' = [p \in Prs |-> NoValue] /\ pend' = [p \in Prs |-> D!Idle]
ToSet2(s) == {s[i] : i \in 1 .. Len(s)}
OpOf(e) == IF e.op = "insert" THEN [op |-> "insert", v |-> e.v] ELSE [op |-> e.op]
Call == IsEvent("Call") /\ D!Invoke(Ev.p, OpOf(Ev))
Lin == (\E p \in Prs : D!TakeEffect(p)) /\ UNCHANGED l
Ret == /\ IsEvent("Ret") /\ Ev.o = "ok" /\ Cardinality(ToSet2(Ev.r)) = Len(Ev.r)
       /\ D!Return(Ev.p, ToSet2(Ev.r))
Kill == IsEvent("Kill") /\ D!Kill(Ev.p)
TNext == Reset \/ Call \/ Lin \/ Ret \/ Kill
TSpec == TInit /\ [][TNext]_<<l, com, loc, tx, held, pend>>
=============================================================================
