-------------------------------- MODULE OneMC --------------------------------
(***************************************************************************)
(* Why computing the interaction operators lazily, one component at a      *)
(* time, cannot be noticed: a model of the store of operators next to the  *)
(* settings. An operator is present or absent and belongs to a generation  *)
(* of the basis; changing the basis carries every present operator along   *)
(* or drops them all. An answer is the set of <<component, weight,         *)
(* generation>> it was put together from; it has to be the one that the    *)
(* settings in force and the present basis stand for.                      *)
(* Forget, Halfway, Stale: slips that must be noticed (expected violation) *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Slip, MaxGen, Small
Comps == {"E0", "E1", "B0", "B1", "D00", "D20", "D21", "D22", "I1", "I2"}
\* settings: fields as <<parallel, perpendicular>>
VARIABLES e, b, dia, charge, order, far, store, gen, built, ham
vars == <<e, b, dia, charge, order, far, store, gen, built, ham>>
Weights == [E0 |-> e[1], E1 |-> e[2], B0 |-> b[1], B1 |-> b[2],
            D00 |-> IF dia THEN b[1] * b[1] + b[2] * b[2] ELSE 0, D20 |-> IF dia THEN 2 * b[1] * b[1] - b[2] * b[2] ELSE 0,
            D21 |-> IF dia THEN b[1] * b[2] ELSE 0, D22 |-> IF dia THEN b[2] * b[2] ELSE 0,
            I1 |-> IF charge # 0 /\ order >= 1 /\ ~far THEN charge ELSE 0, I2 |-> IF charge # 0 /\ order >= 2 /\ ~far THEN charge ELSE 0]
\* what an ion needs does not depend on its distance
Needed == {k \in Comps : IF k = "I1" THEN charge # 0 /\ order >= 1 ELSE IF k = "I2" THEN charge # 0 /\ order >= 2 ELSE Weights[k] # 0}
Right == {<<k, Weights[k], gen>> : k \in {x \in Comps : Weights[x] # 0}}
Init == /\ e = <<0, 0>> /\ b = <<0, 0>> /\ dia = TRUE /\ charge = 0 /\ order = 0 /\ far = TRUE
        /\ store = [k \in Comps |-> -1] /\ gen = 0 /\ built = FALSE /\ ham = {}
Changed == /\ built' = (IF Slip = "stale" THEN built ELSE FALSE) /\ UNCHANGED <<store, gen, ham>>
SetE == \E x, y \in 0 .. 1 : (Small => x = y) /\ e' = <<x, y>> /\ UNCHANGED <<b, dia, charge, order, far>> /\ Changed
SetB == \E x, y \in 0 .. 1 : (Small => x >= y) /\ b' = <<x, y>> /\ UNCHANGED <<e, dia, charge, order, far>> /\ Changed
SetDia == dia' = ~dia /\ UNCHANGED <<e, b, charge, order, far>> /\ Changed
SetIon == \/ \E c \in {0, 1} : charge' = c /\ UNCHANGED <<e, b, dia, order, far>> /\ Changed
          \/ \E o \in 0 .. (IF Small THEN 1 ELSE 2) : order' = o /\ UNCHANGED <<e, b, dia, charge, far>> /\ Changed
          \/ far' = ~far /\ UNCHANGED <<e, b, dia, charge, order>> /\ Changed
\* asking: compute what is missing, put the answer together
Ask == /\ store' = [k \in Comps |-> IF k \in Needed /\ store[k] = -1 THEN gen ELSE store[k]]
       /\ ham' = (IF built THEN ham ELSE {<<k, Weights[k], store'[k]>> : k \in {x \in Comps : Weights[x] # 0}})
       /\ built' = TRUE /\ UNCHANGED <<e, b, dia, charge, order, far, gen>>
Transform == /\ gen < MaxGen /\ gen' = gen + 1
             /\ store' = [k \in Comps |-> IF store[k] = -1 THEN -1
                                          ELSE IF Slip = "forget" /\ k = "I1" THEN store[k] ELSE gen + 1]
             /\ ham' = {<<t[1], t[2], gen + 1>> : t \in ham} /\ UNCHANGED <<e, b, dia, charge, order, far, built>>
Drop == /\ gen < MaxGen /\ gen' = gen + 1
        /\ store' = [k \in Comps |-> IF Slip = "halfway" /\ k = "D22" THEN store[k] ELSE -1]
        /\ built' = FALSE /\ UNCHANGED <<e, b, dia, charge, order, far, ham>>
Next == SetE \/ SetB \/ SetDia \/ SetIon \/ Ask \/ Transform \/ Drop
Spec == Init /\ [][Next]_vars
\* absent operators are never used, and an answer is right whatever came before
Answer == built => ham = Right
=============================================================================
