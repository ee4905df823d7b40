------------------------------ MODULE ApiTrace ------------------------------
(* Histories of real atom objects against module Api.                        *)
EXTENDS TraceBase
A == INSTANCE Api
VARIABLE obj        \* number of the object -> its setting
vars == <<l, obj>>
TInit == TrackInit /\ l = 1 /\ obj = <<>>
Upd(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Start == IsEvent("Start") /\ obj' = <<>>
Make == IsEvent("Make") /\ obj' = Upd(obj, Ev.i, A!Made(Ev.c))
\* what the object is: its system, and the same by its parameters
See == /\ IsEvent("See") /\ UNCHANGED obj
       /\ Ev.sys = A!System(obj[Ev.i])
       /\ Ev.out = [x \in (DOMAIN Ev.out) |-> Ev.sys[x]]
Update == /\ IsEvent("Update")
          /\ LET n == A!Update(obj[Ev.i], Ev.u)
             IN /\ Ev.changed = (n # obj[Ev.i]) /\ obj' = Upd(obj, Ev.i, n)
Refused == IsEvent("Refused") /\ UNCHANGED obj
Delete == IsEvent("Delete") /\ UNCHANGED obj
Copy == IsEvent("Copy") /\ obj' = Upd(obj, Ev.to, obj[Ev.i])
Again == IsEvent("Again") /\ obj' = Upd(obj, Ev.to, obj[Ev.i])
\* energies of the start states of an atom (doubled)
Calc == /\ IsEvent("Calc") /\ UNCHANGED obj
        /\ Ev.e = [k \in 1..Len(obj[Ev.i].at[1].st) |-> 2 * A!Energy(obj[Ev.i], 1, k)]
TNext == Start \/ Make \/ See \/ Update \/ Refused \/ Delete \/ Copy \/ Again \/ Calc
TSpec == TInit /\ [][TNext]_vars
=============================================================================
