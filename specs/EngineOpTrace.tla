--------------------------- MODULE EngineOpTrace ---------------------------
(* Matrices of the real engine against module EngineOp.                    *)
EXTENDS TraceBase
M == INSTANCE EngineOp WITH Slip <- ""
VARIABLES q, tabs
vars == <<l, q, tabs>>
TInit == TrackInit /\ l = 1 /\ q = <<>> /\ tabs = <<>>
Start == IsEvent("Start") /\ q' = Ev.q /\ tabs' = <<>>
\* the pairs: products of the states near the initial ones, each once
Pairs(rows, st1, st2) ==
  LET T(st) == [i \in 1 .. Len(st) |-> <<i - 1, st[i]>>]
      k1 == M!P!Kept(q, T(st1), IF q.same THEN {q.s1, q.s2} ELSE {q.s1})
      k2 == IF q.same THEN k1 ELSE M!P!Kept(q, T(st2), {q.s2}) IN
  {rows[i] : i \in 1 .. Len(rows)} = k1 \X k2 /\ Len(rows) = Cardinality(k1) * Cardinality(k2)
\* the states announced for a part
Sta == /\ IsEvent("STA")
       /\ IF Ev.part = 2 THEN Pairs(Ev.rows, tabs[1].rows, tabs[Len(tabs)].rows)
          ELSE {Ev.rows[i] : i \in 1 .. Len(Ev.rows)} = M!States(q, Ev.part) /\ Len(Ev.rows) = Cardinality(M!States(q, Ev.part))
       /\ tabs' = Append(tabs, [part |-> Ev.part, rows |-> Ev.rows]) /\ UNCHANGED q
Tol == 300
Near(x, y) == x - y <= Tol /\ y - x <= Tol
\* re, im: what was observed; h: the operator, times m
Agree(re, im, h, m, n) ==
  /\ Len(re) = n
  /\ \A i \in 1 .. n : \A j \in 1 .. n :
       Near(re[i][j], m * h[i][j][1]) /\ Near(IF im = <<>> THEN 0 ELSE im[i][j], m * h[i][j][2])
Rows == tabs[Len(tabs)].rows
Shifted(h, n) == TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. n |-> M!CAdd(h[i][j], IF i = j THEN <<M!Shift, 0>> ELSE M!Z)])])
One == Agree(TLCEval(Ev.re), TLCEval(Ev.im), TLCEval(Shifted(TLCEval(M!OpOne(q, Ev.part, M!FieldAt(q, Ev.step), Rows)), Len(Rows))), 1000, Len(Rows))
Two == Agree(TLCEval(Ev.re), TLCEval(Ev.im), TLCEval(M!OpTwo(q, M!FieldAt(q, Ev.step), M!DistAt(q, Ev.step), Ev.sym, Rows, tabs[1].rows, tabs[Len(tabs) - 1].rows)), 1, Len(Rows))
Out == /\ IsEvent("OUT") /\ tabs # <<>> /\ tabs[Len(tabs)].part = Ev.part
       /\ IF Ev.part = 2 THEN Two ELSE One
       /\ UNCHANGED <<q, tabs>>
Stop == IsEvent("Stop") /\ Ev.end = "ok" /\ Ev.outs = Ev.total /\ q' = <<>> /\ tabs' = <<>>
TNext == Start \/ Sta \/ Out \/ Stop
TSpec == TInit /\ [][TNext]_vars
=============================================================================
