------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The in-memory cache as one atomic write-once map shared by all threads. *)
(* A call is three steps: it is invoked, takes effect at one instant       *)
(* between invocation and return, and returns what that instant decided.   *)
(*   save(k, v)   refused ("dup") when k is present, else stores v         *)
(*   restore(k)   the stored value, or "none"                              *)
(*   clear        forgets everything                                       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Threads, Keys, Vals, None
VARIABLES store,   \* Keys -> Vals \cup {None}
          pend     \* per thread: the call in progress
vars == <<store, pend>>

Idle == [st |-> "idle"]
Ops == {[op |-> "save", k |-> k, v |-> v] : k \in Keys, v \in Vals}
       \cup {[op |-> "restore", k |-> k] : k \in Keys}
       \cup {[op |-> "clear"]}

Init == store = [k \in Keys |-> None] /\ pend = [t \in Threads |-> Idle]

Invoke(t, o) == /\ pend[t].st = "idle"
                /\ pend' = [pend EXCEPT ![t] = [st |-> "called", op |-> o]]
                /\ UNCHANGED store

Effect(o) == CASE o.op = "save" -> IF store[o.k] # None THEN [s |-> store, r |-> "dup"]
                                   ELSE [s |-> [store EXCEPT ![o.k] = o.v], r |-> "ok"]
               [] o.op = "restore" -> [s |-> store, r |-> store[o.k]]
               [] o.op = "clear" -> [s |-> [k \in DOMAIN store |-> None], r |-> "ok"]

TakeEffect(t) == /\ pend[t].st = "called"
                 /\ LET e == Effect(pend[t].op) IN
                      /\ store' = e.s
                      /\ pend' = [pend EXCEPT ![t] = [st |-> "done", op |-> @.op, r |-> e.r]]

Return(t, r) == /\ pend[t].st = "done" /\ pend[t].r = r
                /\ pend' = [pend EXCEPT ![t] = Idle]
                /\ UNCHANGED store

Next == \E t \in Threads : \/ \E o \in Ops : Invoke(t, o)
                           \/ TakeEffect(t)
                           \/ (pend[t].st = "done" /\ Return(t, pend[t].r))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
TypeOK == store \in [Keys -> Vals \cup {None}]
\* A value, once stored, is only ever removed by clearing everything.
WriteOnce == [][\A k \in Keys : store[k] # None /\ store'[k] # store[k]
                                  => \A q \in Keys : store'[q] = None]_store
RestoreSeesStored == \A t \in Threads :
   pend[t].st = "done" /\ pend[t].op.op = "restore" => pend[t].r \in Vals \cup {None}
=============================================================================
