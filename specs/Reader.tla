------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The side of the graphical interface that reads what the engine says.     *)
(* s: part of the calculation, files with states and matrices to be shown   *)
(* (for the first atom or both, the second atom, the pair), the counters    *)
(* and the message they make, whether the end was announced.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Clean == [part |-> 0, files |-> <<<<>>, <<>>, <<>>>>, mats |-> <<<<>>, <<>>, <<>>>>, dim |-> 0, cur |-> 0, tot |-> 0,
          head |-> "", nums |-> <<>>, fin |-> FALSE]
Head4 == <<"Field map of first atom: ", "Field map of second atom: ", "Pair potential: ", "Field maps: ">>
Show(part) == IF part = 3 THEN 1 ELSE part + 1
\* a line that is not part of the protocol is [k |-> "Text"]
Line(s, x) ==
  IF x.k = "TYP" THEN [s EXCEPT !.part = x.n, !.head = Head4[x.n + 1], !.nums = <<>>]
  ELSE IF x.k = "BAS" THEN [s EXCEPT !.nums = <<x.n>>]
  ELSE IF x.k = "STA" THEN [s EXCEPT !.files[Show(s.part)] = Append(@, x.f)]
  ELSE IF x.k = "TOT" THEN [s EXCEPT !.tot = x.n, !.cur = 0]
  ELSE IF x.k = "DIM" THEN [s EXCEPT !.dim = x.n, !.nums = <<x.n, x.n, s.cur, s.tot>>]
  ELSE IF x.k = "OUT" THEN [s EXCEPT !.cur = @ + 1, !.nums = <<s.dim, s.dim, s.cur + 1, s.tot>>,
                                     !.mats[Show(s.part)] = Append(@, <<x.step, x.blocks, x.block, x.f>>)]
  ELSE IF x.k = "END" THEN [s EXCEPT !.fin = TRUE]
  ELSE s
RECURSIVE Lines(_, _)
Lines(s, xs) == IF xs = <<>> THEN s ELSE Lines(Line(s, xs[1]), Tail(xs))
\* a whole output is read up to the announced end; if there is none, everything is forgotten
RECURSIVE Upto(_)
Upto(xs) == IF xs = <<>> THEN <<>> ELSE IF xs[1].k = "END" THEN <<xs[1]>> ELSE <<xs[1]>> \o Upto(Tail(xs))
Stream(s, xs) == LET r == Lines(s, Upto(xs)) IN IF r.fin THEN r ELSE Clean
Errors(xs) == LET y == Upto(xs) IN SelectSeq([k \in 1 .. Len(y) |-> IF y[k].k = "ERR" THEN y[k].f ELSE ""], LAMBDA v : v # "")
=============================================================================
