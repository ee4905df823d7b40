------------------------------ MODULE EngineGen ------------------------------
(* Histories of a directory of results: calculations alone and at the same   *)
(* time, killed at some change of a file, and damaged files in between.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, N
VARIABLE h
R(S) == RandomElement(S)
Pick(s) == s[R(1 .. Len(s) + 0 * Len(h))]
Run(cut) == [c |-> R(1 .. N + 0 * Len(h)), threads |-> Pick(<<1, 1, 2, 4, 4>>), cut |-> IF cut THEN R(1 .. 60 + 0 * Len(h)) ELSE 0, jitter |-> Pick(<<0, 0, 0, 200, 1000>>)]
Same(r) == [r EXCEPT !.threads = Pick(<<1, 2, 4>>), !.jitter = Pick(<<0, 200, 1000>>)]
Kinds == <<"cutmat", "cutmat", "cutjson", "cutjson", "rmmat", "rmjson", "garbagemat", "garbagejson", "moremat", "db">>
Op ==
  LET w == R(1 .. 10 + 0 * Len(h)) IN
  IF w <= 3 \/ h = <<>> THEN [o |-> "Run", a |-> Run(FALSE)]
  ELSE IF w = 4 THEN [o |-> "Run", a |-> Run(TRUE)]
  ELSE IF w <= 6 THEN LET r == Run(FALSE) IN [o |-> "Par", a |-> <<r, Same(r)>> \o (IF R(1 .. 3 + 0 * Len(h)) = 1 THEN <<Run(R(1 .. 2) = 1)>> ELSE <<>>)]
  ELSE [o |-> Pick(Kinds), a |-> R(0 .. 30 + 0 * Len(h))]
Init == h = <<>>
\* (the last is a calculation that is let alone)
Next == Len(h) < MaxLen /\ \E x \in {IF Len(h) = MaxLen - 1 THEN [o |-> "Run", a |-> Run(FALSE)] ELSE Op} : h' = Append(h, x)
Spec == Init /\ [][Next]_h
Emit == Len(h) = MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson(h))
=============================================================================
