------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The store of matrix elements as its users see it. An object has a       *)
(* directory (0: none), a method, a defect database, the tables of dipole  *)
(* elements that were loaded into it, and states for which elements were   *)
(* announced (they are computed with the next request). What it answers    *)
(* depends on the method, the database and the tables alone: never on what *)
(* was asked before, by whom, or on what came of it.                       *)
(*   c.req[r] = [k, a, b, kr]  kind, the two states, power of the radius   *)
(*   c.st[s] = [sp, n, l, j2, m2]      c.csv[t] = [sp, rows]               *)
(*   c.truth[m][d][r], c.loaded[t][m][d][r]: answers of fresh objects      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
New(dir) == [on |-> TRUE, dir |-> dir, m |-> 1, d |-> 1, tabs |-> <<>>, pre |-> {}]
Off == [on |-> FALSE, dir |-> 0, m |-> 1, d |-> 1, tabs |-> <<>>, pre |-> {}]
Level(s) == <<s.n, s.l, s.j2>>
\* the element needs a number that table t provides
Needs(c, t, r) ==
  LET q == c.req[r]
      a == c.st[q.a]
      b == c.st[q.b] IN
  q.kr = 1 /\ a.sp = b.sp /\ a.sp = c.csv[t].sp
  /\ \E i \in 1 .. Len(c.csv[t].rows) : LET x == c.csv[t].rows[i] IN {<<x[1], x[2], x[3]>>, <<x[4], x[5], x[6]>>} = {Level(a), Level(b)}
\* tables in the order of loading, each for the method in force at that time
Last(c, o, r) == LET S == {i \in 1 .. Len(o.tabs) : o.tabs[i][1] = o.m /\ Needs(c, o.tabs[i][2], r)} IN
                 IF S = {} THEN 0 ELSE o.tabs[CHOOSE i \in S : \A k \in S : k <= i][2]
Answer(c, o, r) == LET t == Last(c, o, r) IN IF t = 0 THEN c.truth[o.m][o.d][r] ELSE c.loaded[t][o.m][o.d][r]
\* a state that was announced but cannot be computed may make one request fail
Doubtful(c, o) == \E s \in o.pre : ~c.known[o.d][s]
\* changes
Change(o, k, a) ==
  CASE k = "Method" -> [o EXCEPT !.m = a]
    [] k = "Defect" -> [o EXCEPT !.d = a, !.dir = 0]
    [] k = "Pre" -> [o EXCEPT !.pre = @ \cup {a.s[i] : i \in 1 .. Len(a.s)}]
    [] k = "Load" -> [o EXCEPT !.tabs = Append(@, <<o.m, a>>), !.pre = {}]
    [] OTHER -> o
=============================================================================
