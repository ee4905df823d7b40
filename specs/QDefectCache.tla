---------------------------- MODULE QDefectCache ----------------------------
(***************************************************************************)
(* How the answers are produced: a table of earlier answers, shared by all *)
(* threads, is emptied when another database is selected; a thread looks   *)
(* its level up, computes the answer from its database when it is missing, *)
(* and saves it; saving a key that is present is an error. With Serial the *)
(* whole sequence is one critical section; without it two threads that     *)
(* miss the same level disturb each other (the defect the sources had).    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Dbs, Levels, None, Serial
VARIABLES used, table, lock, pc, req, ans
vars == <<used, table, lock, pc, req, ans>>
Init == /\ used = None /\ table = [q \in Levels |-> None] /\ lock = None
        /\ pc = [t \in Threads |-> "idle"] /\ req = [t \in Threads |-> None]
        /\ ans = [t \in Threads |-> None]
Truth(d, q) == <<d, q>>
Ask(t) == /\ pc[t] = "idle" /\ \E d \in Dbs, q \in Levels : req' = [req EXCEPT ![t] = <<d, q>>]
          /\ pc' = [pc EXCEPT ![t] = "enter"] /\ ans' = [ans EXCEPT ![t] = None]
          /\ UNCHANGED <<used, table, lock>>
Enter(t) == /\ pc[t] = "enter" /\ (Serial => lock = None)
            /\ lock' = IF Serial THEN t ELSE lock
            /\ pc' = [pc EXCEPT ![t] = "select"] /\ UNCHANGED <<used, table, req, ans>>
Select(t) == /\ pc[t] = "select" /\ used' = req[t][1]
             /\ table' = IF used # req[t][1] THEN [q \in Levels |-> None] ELSE table
             /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<lock, req, ans>>
Look(t) == /\ pc[t] = "look"
           /\ ans' = [ans EXCEPT ![t] = table[req[t][2]]]
           /\ pc' = [pc EXCEPT ![t] = IF table[req[t][2]] # None THEN "leave" ELSE "compute"]
           /\ UNCHANGED <<used, table, lock, req>>
Compute(t) == /\ pc[t] = "compute" /\ ans' = [ans EXCEPT ![t] = Truth(req[t][1], req[t][2])]
              /\ pc' = [pc EXCEPT ![t] = "save"] /\ UNCHANGED <<used, table, lock, req>>
Save(t) == /\ pc[t] = "save"
           /\ IF table[req[t][2]] # None THEN ans' = [ans EXCEPT ![t] = "error"] /\ UNCHANGED table
              ELSE table' = [table EXCEPT ![req[t][2]] = ans[t]] /\ UNCHANGED ans
           /\ pc' = [pc EXCEPT ![t] = "leave"] /\ UNCHANGED <<used, lock, req>>
Leave(t) == /\ pc[t] = "leave" /\ lock' = IF lock = t THEN None ELSE lock
            /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<used, table, req, ans>>
Done(t) == /\ pc[t] = "done" /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<used, table, lock, req, ans>>
Next == \E t \in Threads : Ask(t) \/ Enter(t) \/ Select(t) \/ Look(t) \/ Compute(t) \/ Save(t)
                           \/ Leave(t) \/ Done(t)
Spec == Init /\ [][Next]_vars
Right == \A t \in Threads : pc[t] = "done" => ans[t] = Truth(req[t][1], req[t][2])
TableRight == \A q \in Levels : (Serial /\ lock = None /\ table[q] # None) => table[q] = Truth(used, q)
=============================================================================
