-------------------------------- MODULE TwoMC --------------------------------
(***************************************************************************)
(* Why three ways of computing the same interaction, each with operators   *)
(* that are kept, cannot be noticed: a model of the operators of a two-    *)
(* atom system next to its geometry. Multipole and angular operators are   *)
(* kept and multiplied by what the geometry stands for; the operators of   *)
(* the Green tensor are computed anew, its terms belong to the reading. A  *)
(* reading is refused when the geometry cannot be handled, which must not  *)
(* leave anything behind.                                                  *)
(* Slips that must be noticed: "terms" (terms of an earlier Green tensor   *)
(* are kept), "kept" (its operators are, too, across a change of basis),   *)
(* "refused" (a refused request changes the switch), "forget" (a way is    *)
(* left out of the change of basis).                                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Slip, MaxGen
Comps == {"m3", "m4", "m5", "a", "g", "h"}
Dirs == {"up", "down", "x", "y"}
VARIABLES dir, far, gt, surf, order, store, terms, gen, built, ham
vars == <<dir, far, gt, surf, order, store, terms, gen, built, ham>>
set == [dir |-> dir, gt |-> gt, surf |-> surf, order |-> order]
Readable == far \/ (((dir = "y" \/ surf \/ (dir = "x" /\ order > 3)) => gt) /\ (gt => order < 5) /\ (surf => dir # "y"))
Way == IF gt THEN {"g"} \cup (IF order > 3 THEN {"h"} ELSE {})
       ELSE IF dir = "x" THEN {"a"} ELSE {c \in {"m3", "m4", "m5"} : (c = "m4" => order > 3) /\ (c = "m5" => order > 4)}
\* what a component is multiplied by
Weight(c) == CASE c \in {"g", "h"} -> <<dir, surf>> [] c = "a" -> <<dir, FALSE>> [] c = "m4" -> <<dir, FALSE>> [] OTHER -> <<"any", FALSE>>
Right == IF far THEN {} ELSE {<<c, Weight(c), gen>> : c \in Way}
Init == /\ dir = "up" /\ far = TRUE /\ gt = FALSE /\ surf = FALSE /\ order = 3
        /\ store = [c \in Comps |-> -1] /\ terms = {} /\ gen = 0 /\ built = FALSE /\ ham = {}
Changed == built' = FALSE /\ UNCHANGED <<store, terms, gen, ham>>
SetDir == \E d \in Dirs : dir' = d /\ gt' = (gt \/ d = "y") /\ far' = FALSE /\ UNCHANGED <<surf, order>> /\ Changed
SetAngle == \E d \in {"up", "down", "x"} : dir' = d /\ UNCHANGED <<gt, far, surf, order>> /\ Changed
SetFar == far' = ~far /\ UNCHANGED <<dir, gt, surf, order>> /\ Changed
SetOrder == \E o \in 3 .. 5 : order' = o /\ UNCHANGED <<dir, far, gt, surf>> /\ Changed
SetGT == \E b \in BOOLEAN : /\ UNCHANGED <<dir, far, surf, order>> /\ Changed
                            /\ gt' = (IF ~b /\ surf /\ Slip # "refused" THEN gt ELSE b)
SetSurf == \E b \in BOOLEAN : surf' = b /\ gt' = (gt \/ b) /\ UNCHANGED <<dir, far, order>> /\ Changed
Ask == /\ UNCHANGED <<dir, far, gt, surf, order, gen>>
       /\ IF ~Readable THEN UNCHANGED <<store, terms, built, ham>>
          ELSE LET t == {<<c, Weight(c)>> : c \in Way \cap {"g", "h"}}
                   now == IF Slip = "terms" THEN t \cup terms ELSE t
                   s == [c \in Comps |-> IF far \/ c \notin Way THEN store[c]
                                         ELSE IF c \in {"g", "h"} /\ Slip # "kept" THEN gen ELSE IF store[c] = -1 THEN gen ELSE store[c]] IN
               /\ store' = s /\ terms' = (IF far THEN terms ELSE now)
               /\ ham' = (IF built THEN ham ELSE IF far THEN {}
                          ELSE IF gt THEN {<<p[1], p[2], s[p[1]]>> : p \in now}
                          ELSE {<<c, Weight(c), s[c]>> : c \in Way})
               /\ built' = TRUE
\* the refusals come as exceptions, the switch of the slip as a setting that differs from what was asked for
Transform == /\ gen < MaxGen /\ built /\ gen' = gen + 1
             /\ store' = [c \in Comps |-> IF store[c] = -1 THEN -1 ELSE IF (Slip = "forget" /\ c = "a") \/ (Slip = "kept" /\ c = "g") THEN store[c] ELSE gen + 1]
             /\ ham' = {<<t[1], t[2], gen + 1>> : t \in ham} /\ UNCHANGED <<dir, far, gt, surf, order, terms, built>>
Drop == /\ gen < MaxGen /\ gen' = gen + 1 /\ store' = [c \in Comps |-> -1] /\ built' = FALSE /\ UNCHANGED <<dir, far, gt, surf, order, terms, ham>>
Next == SetDir \/ SetAngle \/ SetFar \/ SetOrder \/ SetGT \/ SetSurf \/ Ask \/ Transform \/ Drop
Spec == Init /\ [][Next]_vars
Answer == built => ham = Right
\* with a surface the switch stays on, whatever was asked for
Switch == surf => gt
=============================================================================
