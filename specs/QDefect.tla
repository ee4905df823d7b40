------------------------------ MODULE QDefect ------------------------------
(***************************************************************************)
(* What a quantum-defect request answers: a pure function of the contents  *)
(* of the selected database and the level. A request is invoked, and       *)
(* returns the answer; nothing it does affects any other request.          *)
(*                                                                         *)
(* A database is [pot |-> rows, ritz |-> rows] or Broken. A potential row  *)
(* is [s, l, v], a Rydberg-Ritz row is [s, l, j2, ns, ry]: j2 is twice j,  *)
(* ns gives the effective quantum number for each n.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Refused, Broken
VARIABLES files,  \* path -> contents
          pend    \* thread -> level being asked, or NotAsking
vars == <<files, pend>>
NotAsking == [st |-> "idle"]

Range(s) == {s[i] : i \in 1 .. Len(s)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(a, b) == IF a <= b THEN a ELSE b
\* levels beyond the table use its last entry
Pot(d, q) == LET ls == {r.l : r \in {x \in Range(d.pot) : x.s = q.s}} IN
   IF ls = {} THEN {} ELSE {r \in Range(d.pot) : r.s = q.s /\ r.l = Min(q.l, Max(ls))}
Ritz(d, q) ==
   LET mine == {r \in Range(d.ritz) : r.s = q.s}
       ls == {r.l : r \in mine}
       el == IF ls = {} THEN {} ELSE {r \in mine : r.l = Min(q.l, Max(ls))}
       js == {r.j2 : r \in el}
   IN IF js = {} THEN {} ELSE {r \in el : r.j2 = Min(q.j2, Max(js))}
Answer(d, q) == IF d = Broken THEN Refused
   ELSE IF Pot(d, q) = {} \/ Ritz(d, q) = {} THEN Refused
   ELSE LET p == CHOOSE r \in Pot(d, q) : TRUE
            z == CHOOSE r \in Ritz(d, q) : TRUE
        IN [v |-> p.v, ns |-> z.ns[q.n], ry |-> z.ry]

Init == files = <<>> /\ pend = [t \in Threads |-> NotAsking]
Write(path, d) == /\ \A t \in Threads : pend[t] = NotAsking
                  /\ files' = [x \in DOMAIN files \cup {path} |-> IF x = path THEN d ELSE files[x]]
                  /\ UNCHANGED pend
Ask(t, path, q) == /\ pend[t] = NotAsking
                   /\ pend' = [pend EXCEPT ![t] = [st |-> "asking", path |-> path, q |-> q]]
                   /\ UNCHANGED files
Expected(t) == LET f == pend[t].path IN
               IF f \in DOMAIN files THEN Answer(files[f], pend[t].q) ELSE Refused
Reply(t) == /\ pend[t] # NotAsking
            /\ pend' = [pend EXCEPT ![t] = NotAsking]
            /\ UNCHANGED files
=============================================================================
