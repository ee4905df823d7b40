------------------------------ MODULE SqlTrace ------------------------------
(* Calls of the real statement class with their outcomes and rows.          *)
EXTENDS TraceBase
VARIABLES tab, uniq, sql, prep, cur, valid, run, par, row, failed, fin
S == INSTANCE Sql WITH Null <- NoValue, Ns <- {}, MaxRows <- 0
vs == <<tab, uniq, sql, prep, cur, valid, run, par, row, failed, fin>>
TInit == TrackInit /\ l = 1 /\ S!Init
Reset0 == /\ IsEvent("New")
          /\ tab' = <<>> /\ uniq' = {} /\ sql' = NoValue /\ prep' = FALSE /\ cur' = NoValue
          /\ valid' = TRUE /\ run' = NoValue /\ par' = S!NoPar /\ row' = NoValue
          /\ failed' = FALSE /\ fin' = FALSE
\* a second statement object on the same connection
Fresh == /\ IsEvent("Fresh")
         /\ sql' = NoValue /\ prep' = FALSE /\ cur' = NoValue
         /\ valid' = TRUE /\ run' = NoValue /\ par' = S!NoPar /\ row' = NoValue
         /\ failed' = FALSE /\ fin' = FALSE /\ UNCHANGED <<tab, uniq>>
TNext == \/ Reset0 \/ Fresh
         \/ IsEvent("Set") /\ S!Set(Ev.q)
         \/ IsEvent("Prepare") /\ S!Prepare(Ev.o)
         \/ IsEvent("Bind") /\ S!Bind(Ev.i, Ev.v, Ev.o)
         \/ /\ IsEvent("Step") /\ (Ev.o = "row" => S!StepOk(Ev.o, Ev.row))
            /\ (Ev.o # "row" => S!Step(Ev.o, <<>>))
         \/ IsEvent("Reset") /\ S!Reset(Ev.o)
         \/ IsEvent("ExecIns") /\ S!ExecIns(Ev.row, Ev.o)
         \/ IsEvent("ExecBad") /\ S!ExecBad(Ev.o)
         \/ IsEvent("ForEach") /\ S!ForEach(Ev.o, Ev.rows)
TSpec == TInit /\ [][TNext]_<<l, vs>>
=============================================================================
