----------------------------- MODULE CacheTrace -----------------------------
(* Recorded calls and returns of the real cache, in the order in which the  *)
(* log was written (a call is logged before it is made, a return after).    *)
(* The instant at which a call takes effect is not logged: TLC finds it.    *)
EXTENDS TraceBase
VARIABLES store, pend
Thr == 0 .. 4
Ks == 0 .. 59
C == INSTANCE Cache WITH Threads <- Thr, Keys <- Ks, Vals <- {}, None <- "none"
TInit == TrackInit /\ l = 1 /\ C!Init
OpOf(e) == IF e.op = "save" THEN [op |-> "save", k |-> e.k, v |-> e.v]
           ELSE IF e.op = "restore" THEN [op |-> "restore", k |-> e.k]
           ELSE [op |-> "clear"]
Reset == IsEvent("Reset") /\ store' = [k \in Ks |-> "none"] /\ pend' = [t \in Thr |-> C!Idle]
Call == IsEvent("Call") /\ C!Invoke(Ev.t, OpOf(Ev))
Lin == /\ \E t \in Thr : C!TakeEffect(t)
       /\ UNCHANGED l
Ret == IsEvent("Ret") /\ C!Return(Ev.t, Ev.r)
\* an event that merely says which scenario follows
Note == IsEvent("Note") /\ UNCHANGED <<store, pend>>
\* "Dead": a stored element was used after it had been destroyed. Never allowed.
TNext == Reset \/ Call \/ Lin \/ Ret \/ Note
TSpec == TInit /\ [][TNext]_<<l, store, pend>>
=============================================================================
