------------------------------- MODULE DbTx -------------------------------
(***************************************************************************)
(* Several processes, each with one connection to the same database file.  *)
(* A call is invoked, takes effect at one instant, and returns. Calls that *)
(* need the write lock wait for it; a killed process loses its open        *)
(* transaction and nothing else.                                           *)
(* Calls: begin (with write lock at once), defer (lock at the first        *)
(* write), insert v, commit, rollback, query, hold / finish (a read that   *)
(* is kept open: it goes on seeing what it saw first).                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Procs, Vals, None
VARIABLES com,    \* committed values
          loc,    \* values written by the open transaction of a process
          tx,     \* "none", "deferred" or "write"
          held,   \* None, or the values an open read sees
          pend    \* call in progress
vars == <<com, loc, tx, held, pend>>
Idle == [st |-> "idle"]
Init == /\ com = {} /\ loc = [p \in Procs |-> {}] /\ tx = [p \in Procs |-> "none"]
        /\ held = [p \in Procs |-> None] /\ pend = [p \in Procs |-> Idle]
WriterFree(p) == \A q \in Procs : q # p => tx[q] # "write"

Enabled(p, o) ==
   CASE o.op \in {"begin", "defer"} -> tx[p] = "none"
     [] o.op \in {"commit", "rollback"} -> tx[p] = "write"
     [] o.op = "insert" -> TRUE
     [] o.op = "query" -> tx[p] # "deferred"
     [] o.op = "hold" -> tx[p] = "none"
     [] o.op = "finish" -> held[p] # None
Invoke(p, o) == /\ pend[p].st = "idle"
                /\ held[p] # None => o.op = "finish"
                /\ Enabled(p, o)
                /\ pend' = [pend EXCEPT ![p] = [st |-> "called", op |-> o]]
                /\ UNCHANGED <<com, loc, tx, held>>
Done(p, r) == pend' = [pend EXCEPT ![p] = [st |-> "done", op |-> @.op, r |-> r]]
TakeEffect(p) ==
   /\ pend[p].st = "called"
   /\ LET o == pend[p].op IN
      CASE o.op = "begin" -> /\ WriterFree(p) /\ tx' = [tx EXCEPT ![p] = "write"]
                             /\ Done(p, {}) /\ UNCHANGED <<com, loc, held>>
        [] o.op = "defer" -> /\ tx' = [tx EXCEPT ![p] = "deferred"]
                             /\ Done(p, {}) /\ UNCHANGED <<com, loc, held>>
        [] o.op = "insert" ->
              /\ WriterFree(p)
              /\ IF tx[p] = "none" THEN com' = com \cup {o.v} /\ UNCHANGED <<loc, tx>>
                 ELSE /\ loc' = [loc EXCEPT ![p] = @ \cup {o.v}]
                      /\ tx' = [tx EXCEPT ![p] = "write"] /\ UNCHANGED com
              /\ Done(p, {}) /\ UNCHANGED held
        [] o.op \in {"commit", "rollback"} ->
              /\ com' = IF o.op = "commit" THEN com \cup loc[p] ELSE com
              /\ loc' = [loc EXCEPT ![p] = {}] /\ tx' = [tx EXCEPT ![p] = "none"]
              /\ Done(p, {}) /\ UNCHANGED held
        [] o.op = "query" -> Done(p, com \cup loc[p]) /\ UNCHANGED <<com, loc, tx, held>>
        [] o.op = "hold" -> /\ held' = [held EXCEPT ![p] = com]
                            /\ Done(p, {}) /\ UNCHANGED <<com, loc, tx>>
        [] o.op = "finish" -> /\ held' = [held EXCEPT ![p] = None]
                              /\ Done(p, held[p]) /\ UNCHANGED <<com, loc, tx>>
Return(p, r) == /\ pend[p].st = "done" /\ pend[p].r = r
                /\ pend' = [pend EXCEPT ![p] = Idle] /\ UNCHANGED <<com, loc, tx, held>>
\* a new process takes the place of the killed one
Kill(p) == /\ pend' = [pend EXCEPT ![p] = Idle] /\ loc' = [loc EXCEPT ![p] = {}]
           /\ tx' = [tx EXCEPT ![p] = "none"] /\ held' = [held EXCEPT ![p] = None]
           /\ UNCHANGED com
Ops == {[op |-> x] : x \in {"begin", "defer", "commit", "rollback", "query", "hold", "finish"}}
       \cup {[op |-> "insert", v |-> v] : v \in Vals}
Next == \E p \in Procs : \/ \E o \in Ops : Invoke(p, o)
                         \/ TakeEffect(p) \/ Kill(p)
                         \/ pend[p].st = "done" /\ Return(p, pend[p].r)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
OneWriter == Cardinality({p \in Procs : tx[p] = "write"}) <= 1
\* What is committed stays, and appears only through a commit or an autocommitted insert: whole.
NeverLost == [][com \subseteq com']_com
Whole == [][com' # com => \E p \in Procs : \/ tx[p] = "write" /\ com' = com \cup loc[p]
                                           \/ tx[p] = "none" /\ \E v \in Vals : com' = com \cup {v}]_com
=============================================================================
