------------------------------- MODULE ApiMC -------------------------------
(* The design of the atom objects: a pair and its two atoms read and write   *)
(* one user dictionary; what was built from it is updated along with it or   *)
(* built again. An object is always what it was made and updated to, and     *)
(* what its parameters say; slips of this design break it.                   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Slip, Values, Objects
VARIABLES want, dict, own, built
vars == <<want, dict, own, built>>
\* want: what the object should be <<field of atom 1, of atom 2, distance>>; dict: the pair's dictionary;
\* own: the dictionary the atoms look at ("pair": that of the pair); built: atoms and pair that exist (0: not built)
None == <<0, 0, 0>>
Init == /\ want = [o \in Objects |-> None] /\ dict = want /\ built = want /\ own = [o \in Objects |-> "pair"]
Make(o) == \E a \in Values, b \in Values, d \in Values :
  /\ want' = [want EXCEPT ![o] = <<a, b, d>>] /\ dict' = [dict EXCEPT ![o] = <<a, b, d>>]
  /\ built' = [built EXCEPT ![o] = None] /\ own' = [own EXCEPT ![o] = "pair"]
Live(o) == want[o] # None
Build(o) == /\ Live(o) /\ built[o] = None
            /\ built' = [built EXCEPT ![o] = dict[o]] /\ UNCHANGED <<want, dict, own>>
\* one atom after the other: nothing is done for an atom whose field is the new one already
Upd1(d, f) == IF d[1] = f THEN d ELSE IF Slip = "shared" THEN <<f, f, d[3]>> ELSE <<f, d[2], d[3]>>
Upd2(d, f) == <<d[1], f, d[3]>>
NewField(o, f) ==
  LET d0 == dict[o]  d1 == Upd1(d0, f)  ch2 == d1[2] # f  d2 == Upd2(d1, f)
      b0 == built[o]
      b == IF b0 = None THEN None ELSE <<f, IF ch2 THEN f ELSE b0[2], b0[3]>>
  IN /\ want' = [want EXCEPT ![o] = <<f, f, @[3]>>]
     /\ dict' = [dict EXCEPT ![o] = IF own[o] = "pair" THEN d2 ELSE @]
     /\ built' = [built EXCEPT ![o] = b]
     /\ own' = own
Field(o) == Live(o) /\ (\E f \in Values : NewField(o, f))
NewDist(o, d) ==
  /\ want' = [want EXCEPT ![o][3] = d] /\ dict' = [dict EXCEPT ![o][3] = d]
  /\ built' = [built EXCEPT ![o] = IF @ = None THEN None ELSE IF Slip = "lazy" THEN @ ELSE [@ EXCEPT ![3] = d]]
  /\ own' = own
Distance(o) == Live(o) /\ (\E d \in Values : NewDist(o, d))
Delete(o) == /\ Live(o) /\ built' = [built EXCEPT ![o] = None] /\ UNCHANGED <<want, dict, own>>
Copy(o, t) == /\ Live(o) /\ o # t
              /\ want' = [want EXCEPT ![t] = want[o]] /\ dict' = [dict EXCEPT ![t] = dict[o]]
              /\ built' = [built EXCEPT ![t] = built[o]]
              /\ own' = [own EXCEPT ![t] = IF Slip = "copy" THEN "apart" ELSE "pair"]
Next == \E o \in Objects : Make(o) \/ Build(o) \/ Field(o) \/ Distance(o) \/ Delete(o) \/ \E t \in Objects : Copy(o, t)
Spec == Init /\ [][Next]_vars
Right == \A o \in Objects : Live(o) => /\ dict[o] = want[o] /\ (built[o] # None => built[o] = want[o])
=============================================================================
