------------------------------ MODULE StoreMC ------------------------------
(***************************************************************************)
(* How the store works: a memory per object, a shared file, and a          *)
(* transaction per update; a failed update takes back what was announced   *)
(* and its transaction, a killed one leaves the file as it was, and        *)
(* another defect database empties the memory. Slip names a mistake.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Objs, Keys, Bad, Slip, MaxOps
None == <<>>
SomeBad == {<<1, "a">>, <<0, "b">>}
VARIABLES file, obj, ans, n
vars == <<file, obj, ans, n>>
Tags == {0, 1} \X {0, 1} \X Keys \* method, database, key: what a value was computed from
K2 == {0, 1} \X Keys
Fresh(dir) == [m |-> 0, d |-> 0, dir |-> dir, mem |-> [x \in K2 |-> None], pend |-> {}, tx |-> FALSE, doubt |-> FALSE]
Init == /\ file = [x \in K2 |-> None] /\ n = 0 /\ ans = None
        /\ obj \in [Objs -> {Fresh(TRUE)}]
Go == n < MaxOps /\ n' = n + 1
Torn(f) == \E x \in K2 : f[x] = <<"torn">>
\* key k cannot be computed from database d
Fails(d, k) == <<d, k>> \in Bad
Update(o, k, cut) ==
  LET v == obj[o]
      want == {x \in v.pend \cup {<<v.m, k>>} : v.mem[x] = None}
      got == IF v.dir THEN {x \in want : file[x] # None} ELSE {}
      todo == want \ got
      m1 == [x \in K2 |-> IF x \in got THEN file[x] ELSE v.mem[x]]
      fails == {x \in todo : Fails(v.d, x[2])} IN
  IF todo = {} THEN [ok |-> TRUE, v |-> [v EXCEPT !.mem = m1, !.pend = {}, !.doubt = FALSE], file |-> file]
  ELSE IF v.dir /\ v.tx THEN [ok |-> FALSE, v |-> v, file |-> file] \* a transaction within a transaction
  ELSE LET fine == IF fails = {} THEN todo ELSE cut \cap (todo \ fails)
           val(x) == <<x[1], v.d, x[2]>>
           m2 == [x \in K2 |-> IF x \in fine THEN val(x) ELSE m1[x]] IN
       IF fails = {} THEN [ok |-> TRUE, v |-> [v EXCEPT !.mem = m2, !.pend = {}, !.doubt = FALSE],
                           file |-> IF v.dir THEN [x \in K2 |-> IF x \in todo THEN val(x) ELSE file[x]] ELSE file]
       ELSE [ok |-> FALSE, file |-> file,
             v |-> IF Slip = "poison" THEN [v EXCEPT !.mem = m2, !.pend = todo \ fine, !.tx = v.dir] ELSE [v EXCEPT !.mem = m2, !.pend = {}, !.doubt = FALSE]]
Ask(o, k) == \E cut \in SUBSET K2 :
  LET u == Update(o, k, cut) IN
  /\ ~Torn(file) /\ Go
  /\ obj' = [obj EXCEPT ![o] = u.v] /\ file' = u.file
  /\ ans' = <<[o |-> o, k |-> k, m |-> obj[o].m, d |-> obj[o].d, doubt |-> obj[o].doubt, v |-> IF u.ok THEN u.v.mem[<<obj[o].m, k>>] ELSE None]>>
Announce(o, k) == Go /\ obj' = [obj EXCEPT ![o].pend = @ \cup {<<obj[o].m, k>>}, ![o].doubt = @ \/ \E d \in {0, 1} : Fails(d, k)] /\ UNCHANGED <<file, ans>>
Method(o) == Go /\ obj' = [obj EXCEPT ![o].m = 1 - @] /\ UNCHANGED <<file, ans>>
Defect(o) == Go /\ obj' = [obj EXCEPT ![o].d = 1 - @, ![o].dir = FALSE, ![o].mem = IF Slip = "keep" THEN @ ELSE [x \in K2 |-> None]] /\ UNCHANGED <<file, ans>>
\* saved and restored by another process
Restore(o) == Go /\ obj' = [obj EXCEPT ![o].d = IF Slip = "lost" THEN 0 ELSE @, ![o].tx = FALSE] /\ UNCHANGED <<file, ans>>
Restart(o) == Go /\ obj' = [obj EXCEPT ![o] = Fresh(TRUE)] /\ UNCHANGED <<file, ans>>
\* killed while the file is written
Kill(o, k) == LET u == Update(o, k, {}) IN
  /\ obj[o].dir /\ u.ok /\ Go /\ obj' = [obj EXCEPT ![o] = Fresh(TRUE)]
  /\ \/ file' = file \/ file' = u.file
     \/ (Slip = "torn" /\ \E x \in {x \in K2 : u.file[x] # file[x]} : file' = [file EXCEPT ![x] = <<"torn">>])
  /\ UNCHANGED ans
Next == \E o \in Objs : Method(o) \/ Defect(o) \/ Restore(o) \/ Restart(o) \/ (\E k \in Keys : Ask(o, k) \/ Announce(o, k) \/ Kill(o, k))
Spec == Init /\ [][Next]_vars
Right == ans # <<>> => LET w == ans[1] IN IF Fails(w.d, w.k) THEN w.v = None ELSE (w.v = <<w.m, w.d, w.k>> \/ (w.doubt /\ w.v = None))
Whole == ~Torn(file) /\ (\A x \in K2 : file[x] # None => file[x] = <<x[1], 0, x[2]>>)
Inv == Right /\ Whole
=============================================================================
