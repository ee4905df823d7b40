----------------------------- MODULE CacheLock -----------------------------
(***************************************************************************)
(* How the cache is implemented: each operation acquires the one lock,     *)
(* looks the key up, reads or changes the table, and releases the lock.    *)
(* Reading a stored element is not instantaneous (it is copied), so it is  *)
(* two steps. CONSTANT Locked: which operations take the lock. With all of *)
(* them it refines Cache!Spec; leaving out clear lets it destroy an        *)
(* element while it is being copied (NoStaleRead fails) - the defect that  *)
(* the original sources had.                                               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Threads, Keys, Vals, None, Locked
VARIABLES store, lock, pc, call, res, lin, stale
vars == <<store, lock, pc, call, res, lin, stale>>
Free == "free"
Ops == {[op |-> "save", k |-> k, v |-> v] : k \in Keys, v \in Vals}
       \cup {[op |-> "restore", k |-> k] : k \in Keys} \cup {[op |-> "clear"]}
Init == /\ store = [k \in Keys |-> None] /\ lock = Free /\ stale = FALSE
        /\ pc = [t \in Threads |-> "idle"] /\ call = [t \in Threads |-> None]
        /\ res = [t \in Threads |-> None] /\ lin = [t \in Threads |-> FALSE]

Call(t, o) == /\ pc[t] = "idle"
              /\ pc' = [pc EXCEPT ![t] = "enter"] /\ call' = [call EXCEPT ![t] = o]
              /\ lin' = [lin EXCEPT ![t] = FALSE]
              /\ UNCHANGED <<store, lock, res, stale>>
Enter(t) == /\ pc[t] = "enter"
            /\ IF call[t].op \in Locked THEN lock = Free /\ lock' = t ELSE UNCHANGED lock
            /\ pc' = [pc EXCEPT ![t] = "work"]
            /\ UNCHANGED <<store, call, res, lin, stale>>
Work(t) == /\ pc[t] = "work"
           /\ lin' = [lin EXCEPT ![t] = TRUE]
           /\ LET o == call[t] IN
              CASE o.op = "save" ->
                     /\ IF store[o.k] # None THEN res' = [res EXCEPT ![t] = "dup"] /\ UNCHANGED store
                        ELSE /\ res' = [res EXCEPT ![t] = "ok"]
                             /\ store' = [store EXCEPT ![o.k] = o.v]
                     /\ pc' = [pc EXCEPT ![t] = "leave"]
                [] o.op = "clear" ->
                     /\ store' = [k \in Keys |-> None] /\ res' = [res EXCEPT ![t] = "ok"]
                     /\ pc' = [pc EXCEPT ![t] = "leave"]
                [] o.op = "restore" ->
                     /\ res' = [res EXCEPT ![t] = store[o.k]]
                     /\ pc' = [pc EXCEPT ![t] = IF store[o.k] = None THEN "leave" ELSE "copy"]
                     /\ UNCHANGED store
           /\ UNCHANGED <<lock, call, stale>>
Copy(t) == /\ pc[t] = "copy"
           /\ stale' = (stale \/ store[call[t].k] # res[t])
           /\ pc' = [pc EXCEPT ![t] = "leave"]
           /\ UNCHANGED <<store, lock, call, res, lin>>
Leave(t) == /\ pc[t] = "leave"
            /\ lock' = IF lock = t THEN Free ELSE lock
            /\ pc' = [pc EXCEPT ![t] = "ret"]
            /\ UNCHANGED <<store, call, res, lin, stale>>
Ret(t) == /\ pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ call' = [call EXCEPT ![t] = None] /\ res' = [res EXCEPT ![t] = None]
          /\ lin' = [lin EXCEPT ![t] = FALSE]
          /\ UNCHANGED <<store, lock, stale>>
Next == \E t \in Threads : (\E o \in Ops : Call(t, o)) \/ Enter(t) \/ Work(t) \/ Copy(t)
                            \/ Leave(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
NoStaleRead == ~stale
Abs == INSTANCE Cache WITH
  pend <- [t \in Threads |->
     IF pc[t] = "idle" THEN [st |-> "idle"]
     ELSE IF lin[t] THEN [st |-> "done", op |-> call[t], r |-> res[t]]
     ELSE [st |-> "called", op |-> call[t]]]
Refines == Abs!Spec
=============================================================================
