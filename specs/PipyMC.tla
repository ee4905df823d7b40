------------------------------- MODULE PipyMC -------------------------------
(* The design of the Python back end: workers that keep their atom objects   *)
(* between steps and share a directory of results with all earlier and later *)
(* calculations. Every announced result is that of its step; slips of this   *)
(* design break it.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slip, Workers, Fields, Starts, Calcs
VARIABLES calc, start, todo, mem, cache, doing, said
vars == <<calc, start, todo, mem, cache, doing, said>>
\* mem[w]: fields of the worker's two atoms (0: not made yet), and the field its configuration names
Fresh == [a |-> 0, b |-> 0, conf |-> 0]
Idle == [step |-> 0, at |-> "idle", res |-> <<>>]
Init == /\ calc = 0 /\ start = 0 /\ todo = {} /\ mem = [w \in Workers |-> Fresh] /\ cache = <<>>
        /\ doing = [w \in Workers |-> Idle] /\ said = {}
Begin == /\ calc < Calcs /\ todo = {} /\ \A w \in Workers : doing[w].at = "idle"
         /\ \E s \in Starts : start' = s
         /\ calc' = calc + 1 /\ todo' = Fields /\ mem' = [w \in Workers |-> Fresh] /\ said' = {}
         /\ UNCHANGED <<cache, doing>>
\* the field of an atom after an update to f
Upd(m, f) == LET a == f
                 b == IF Slip = "shared" /\ m.b # 0 THEN m.b ELSE f
             IN [a |-> a, b |-> b, conf |-> f]
Take(w) == /\ doing[w].at = "idle" /\ \E f \in todo :
              /\ todo' = todo \ {f} /\ mem' = [mem EXCEPT ![w] = Upd(@, f)]
              /\ doing' = [doing EXCEPT ![w] = [step |-> f, at |-> "look", res |-> <<>>]]
           /\ UNCHANGED <<calc, start, cache, said>>
Key(w) == IF Slip = "key" THEN <<mem[w].conf>> ELSE <<mem[w].conf, start>>
Has(k) == \E x \in DOMAIN cache : cache[x].key = k /\ cache[x].mark
Entry(k) == CHOOSE x \in DOMAIN cache : cache[x].key = k
Put(k, v, full, mark) == IF \E x \in DOMAIN cache : cache[x].key = k
                         THEN [cache EXCEPT ![Entry(k)] = [key |-> k, v |-> v, full |-> full, mark |-> mark]]
                         ELSE Append(cache, [key |-> k, v |-> v, full |-> full, mark |-> mark])
Look(w) == /\ doing[w].at = "look"
           /\ doing' = [doing EXCEPT ![w].at = IF Has(Key(w)) THEN "say" ELSE "open",
                                     ![w].res = <<mem[w].a, mem[w].b, start>>]
           /\ UNCHANGED <<calc, start, todo, mem, cache, said>>
\* the file is written and then marked as complete
Open(w) == /\ doing[w].at = "open" /\ cache' = Put(Key(w), doing[w].res, FALSE, Slip = "early")
           /\ doing' = [doing EXCEPT ![w].at = "write"] /\ UNCHANGED <<calc, start, todo, mem, said>>
Write(w) == /\ doing[w].at = "write" /\ cache' = Put(Key(w), doing[w].res, TRUE, Slip = "early")
            /\ doing' = [doing EXCEPT ![w].at = "mark"] /\ UNCHANGED <<calc, start, todo, mem, said>>
Mark(w) == /\ doing[w].at = "mark" /\ cache' = Put(Key(w), doing[w].res, TRUE, TRUE)
           /\ doing' = [doing EXCEPT ![w].at = "say"] /\ UNCHANGED <<calc, start, todo, mem, said>>
Say(w) == /\ doing[w].at = "say"
          /\ said' = said \cup {<<doing[w].step, cache[Entry(Key(w))].v, cache[Entry(Key(w))].full, start>>}
          /\ doing' = [doing EXCEPT ![w] = Idle] /\ UNCHANGED <<calc, start, todo, mem, cache>>
\* the user stops the calculation: every process dies
Kill == /\ calc > 0 /\ todo' = {} /\ doing' = [w \in Workers |-> Idle] /\ said' = {}
        /\ UNCHANGED <<calc, start, mem, cache>>
Next == Begin \/ Kill \/ \E w \in Workers : Take(w) \/ Look(w) \/ Open(w) \/ Write(w) \/ Mark(w) \/ Say(w)
Spec == Init /\ [][Next]_vars
\* every announced file is complete and holds the result of its step for this calculation's states
Right == \A x \in said : x[3] /\ x[2] = <<x[1], x[1], x[4]>>
Complete == (calc > 0 /\ todo = {} /\ \A w \in Workers : doing[w].at = "idle") =>
            (said = {} \/ {x[1] : x \in said} = Fields)
=============================================================================
