---------------------------- MODULE QDefectTrace ----------------------------
EXTENDS TraceBase
VARIABLES files, pend
Q == INSTANCE QDefect WITH Threads <- 0 .. 8, Refused <- NoValue, Broken <- [pot |-> <<>>, ritz |-> <<>>]
TInit == TrackInit /\ l = 1 /\ Q!Init
\* a new process
Reset == IsEvent("Reset") /\ files' = <<>> /\ pend' = [t \in 0 .. 8 |-> Q!NotAsking]
Write == IsEvent("Write") /\ Q!Write(Ev.path, [pot |-> Ev.pot, ritz |-> Ev.ritz])
Ask == IsEvent("Ask") /\ Q!Ask(Ev.t, Ev.path, [s |-> Ev.s, n |-> Ev.n, l |-> Ev.l, j2 |-> Ev.j2])
Near(a, b) == a - b \in -1 .. 1
Reply == /\ IsEvent("Reply") /\ Q!Reply(Ev.t)
         /\ LET x == Q!Expected(Ev.t) IN
            IF x = NoValue THEN Ev.o = "refused"
            ELSE Ev.o = "ok" /\ Ev.v = x.v /\ Near(Ev.ns, x.ns) /\ Near(Ev.ry, x.ry)
TNext == Reset \/ Write \/ Ask \/ Reply
TSpec == TInit /\ [][TNext]_<<l, files, pend>>
=============================================================================
