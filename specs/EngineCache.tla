----------------------------- MODULE EngineCache -----------------------------
(***************************************************************************)
(* The engine's cache of results, shared by processes which each calculate  *)
(* the same matrices, one per thread. A table names a file for every set of *)
(* circumstances; the circumstances lie beside the matrix. Processes are    *)
(* killed, and between runs files are damaged or lost. What is announced is *)
(* always right, and a run that is let alone announces everything once.     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Procs, Confs, MaxRuns, MaxKills, MaxDamage, Slip
VARIABLES table, rows, json, mat, next, pc, u, said, st, runs, kills, dams
vars == <<table, rows, json, mat, next, pc, u, said, st, runs, kills, dams>>
Ids == 1 .. Cardinality(Confs) * (MaxDamage + 1)
\* (files: "none", "bad", or what they hold)
None == 0
Bad == -1
Key(c) == IF Slip = "key" THEN CHOOSE k \in Confs : TRUE ELSE c
Init ==
  /\ table = FALSE /\ rows = [c \in Confs |-> 0] /\ json = [i \in Ids |-> None] /\ mat = [i \in Ids |-> None] /\ next = 1
  /\ pc = [p \in Procs |-> [c \in Confs |-> "idle"]] /\ u = [p \in Procs |-> [c \in Confs |-> 0]]
  /\ said = [p \in Procs |-> [c \in Confs |-> 0]] /\ st = [p \in Procs |-> "rest"] /\ runs = 0 /\ kills = 0 /\ dams = 0
Go(p, c, to) == pc' = [pc EXCEPT ![p][c] = to]
Begin(p) ==
  /\ st[p] \in {"rest", "killed", "ended"} /\ runs < MaxRuns /\ runs' = runs + 1
  /\ st' = [st EXCEPT ![p] = "run"] /\ pc' = [pc EXCEPT ![p] = [c \in Confs |-> "table"]]
  /\ u' = [u EXCEPT ![p] = [c \in Confs |-> 0]] /\ said' = [said EXCEPT ![p] = [c \in Confs |-> 0]]
  /\ UNCHANGED <<table, rows, json, mat, next, kills, dams>>
Fail(p) == st' = [st EXCEPT ![p] = "failed"] /\ UNCHANGED <<table, rows, json, mat, next, u, said, runs, kills, dams>>
Table(p, c) ==
  /\ pc[p][c] = "table"
  /\ \/ table' = TRUE
     \* another thread of the process seems to have done it
     \/ Slip = "flag" /\ (\E d \in Confs : d # c /\ pc[p][d] = "table") /\ table' = table
  /\ Go(p, c, "select") /\ UNCHANGED <<rows, json, mat, next, u, said, st, runs, kills, dams>>
Select(p, c) ==
  /\ pc[p][c] = "select"
  /\ IF ~table THEN Fail(p) /\ UNCHANGED pc
     ELSE /\ IF rows[Key(c)] # 0 THEN u' = [u EXCEPT ![p][c] = rows[Key(c)]] /\ Go(p, c, "look") ELSE UNCHANGED u /\ Go(p, c, "insert")
          /\ UNCHANGED <<table, rows, json, mat, next, said, st, runs, kills, dams>>
Insert(p, c) ==
  /\ pc[p][c] = "insert"
  /\ IF ~table \/ (rows[Key(c)] # 0 /\ Slip = "insert") THEN Fail(p) /\ UNCHANGED pc
     ELSE /\ rows' = [rows EXCEPT ![Key(c)] = IF @ = 0 THEN next ELSE @]
          /\ u' = [u EXCEPT ![p][c] = rows'[Key(c)]] /\ next' = IF rows[Key(c)] = 0 THEN next + 1 ELSE next
          /\ Go(p, c, "look") /\ UNCHANGED <<table, json, mat, said, st, runs, kills, dams>>
\* what is there is used only if it is whole and about the same circumstances
Look(p, c) ==
  /\ pc[p][c] = "look"
  /\ LET i == u[p][c] IN
     IF mat[i] # None /\ json[i] = Bad /\ Slip = "json" THEN Fail(p) /\ UNCHANGED pc
     ELSE /\ Go(p, c, IF mat[i] # None /\ json[i] = Key(c) /\ (mat[i] # Bad \/ Slip = "unread")
                      THEN (IF Slip = "skip" THEN "done" ELSE "say")
                      ELSE IF Slip = "early" THEN "say" ELSE "calc")
          /\ UNCHANGED <<table, rows, json, mat, next, u, said, st, runs, kills, dams>>
Json(p, c) ==
  /\ pc[p][c] = "calc" /\ json' = [json EXCEPT ![u[p][c]] = Key(c)] /\ Go(p, c, IF Slip = "plain" THEN "open" ELSE "write")
  /\ UNCHANGED <<table, rows, mat, next, u, said, st, runs, kills, dams>>
Open(p, c) ==
  /\ pc[p][c] = "open" /\ mat' = [mat EXCEPT ![u[p][c]] = Bad] /\ Go(p, c, "write")
  /\ UNCHANGED <<table, rows, json, next, u, said, st, runs, kills, dams>>
Write(p, c) ==
  /\ pc[p][c] = "write" /\ mat' = [mat EXCEPT ![u[p][c]] = c] /\ Go(p, c, "say")
  /\ UNCHANGED <<table, rows, json, next, u, said, st, runs, kills, dams>>
Say(p, c) ==
  /\ pc[p][c] = "say" /\ said' = [said EXCEPT ![p][c] = @ + 1]
  /\ Go(p, c, IF Slip = "early" /\ mat[u[p][c]] = None THEN "calc" ELSE IF Slip = "twice" /\ said[p][c] = 0 THEN "say" ELSE "done")
  /\ UNCHANGED <<table, rows, json, mat, next, u, st, runs, kills, dams>>
End(p) ==
  /\ st[p] = "run" /\ \A c \in Confs : pc[p][c] = "done"
  /\ st' = [st EXCEPT ![p] = "ended"] /\ UNCHANGED <<table, rows, json, mat, next, pc, u, said, runs, kills, dams>>
Kill(p) ==
  /\ st[p] = "run" /\ kills < MaxKills /\ kills' = kills + 1 /\ st' = [st EXCEPT ![p] = "killed"]
  /\ UNCHANGED <<table, rows, json, mat, next, pc, u, said, runs, dams>>
Damage ==
  /\ dams < MaxDamage /\ dams' = dams + 1 /\ \A p \in Procs : st[p] # "run"
  /\ said' = [p \in Procs |-> [c \in Confs |-> 0]] /\ st' = [p \in Procs |-> "rest"]
  /\ \/ \E i \in Ids : mat[i] # None /\ (\E x \in {None, Bad} : mat' = [mat EXCEPT ![i] = x]) /\ UNCHANGED <<table, rows, json>>
     \/ \E i \in Ids : json[i] # None /\ (\E x \in {None, Bad} : json' = [json EXCEPT ![i] = x]) /\ UNCHANGED <<table, rows, mat>>
     \/ table /\ table' = FALSE /\ rows' = [c \in Confs |-> 0] /\ UNCHANGED <<json, mat>>
  /\ UNCHANGED <<next, pc, u, runs, kills>>
Work(p, c) == Table(p, c) \/ Select(p, c) \/ Insert(p, c) \/ Look(p, c) \/ Json(p, c) \/ Open(p, c) \/ Write(p, c) \/ Say(p, c)
Next == (\E p \in Procs : Begin(p) \/ End(p) \/ Kill(p) \/ (st[p] = "run" /\ \E c \in Confs : Work(p, c))) \/ Damage
Spec == Init /\ [][Next]_vars
\* nothing is ever in the way
NoFailure == \A p \in Procs : st[p] # "failed"
\* an announced file holds the announced matrix (whoever reads it, whenever)
Truth == \A p \in Procs : \A c \in Confs : said[p][c] > 0 => mat[u[p][c]] = c
Complete == \A p \in Procs : st[p] = "ended" => \A c \in Confs : said[p][c] = 1
=============================================================================
