------------------------------- MODULE SysMC --------------------------------
(* All short histories of one system of a small configuration: parts stay  *)
(* aligned, the Hamiltonian stays Hermitian, and building something early  *)
(* changes no later answer (Independent).                                  *)
EXTENDS Sys
CONSTANTS MaxDepth, Mixed, EnergyAfter
\* Mixed: vectors mixing states that a restriction may split. EnergyAfter: energies restricted after the basis was built
P1 == <<60, 0, 1, 1>>
P2 == <<60, 0, 1, -1>>
P3 == <<61, 0, 1, 1>>
cfg == [pool |-> <<P1, P2, P3, <<61, 0, 1, -1>>>>, order |-> <<2, 1, 4, 3>>,
        sys |-> <<[vecs |-> IF Mixed THEN <<<<<<1, 1, 0>>, <<3, 1, 0>>>>, <<<<1, 1, 0>>, <<3, -1, 0>>>>, <<<<2, 1, 0>>>>>>
                            ELSE <<<<<<1, 1, 0>>, <<2, 1, 0>>>>, <<<<1, 1, 0>>, <<2, -1, 0>>>>, <<<<3, 1, 0>>>>>>,
                   en |-> <<1, 2, 4>>, off |-> <<<<1, 2, 0, 1>>, <<2, 1, 0, -1>>>>, ms |-> FALSE],
                  [vecs |-> <<<<<<4, 1, 0>>>>>>, en |-> <<3>>, off |-> <<>>, ms |-> FALSE]>>,
        V |-> <<<<1, 3, 1, 1>>, <<3, 1, 1, -1>>, <<2, 3, 2, 0>>, <<3, 2, 2, 0>>, <<3, 4, 1, 0>>, <<4, 3, 1, 0>>>>,
        W |-> <<<<3, 3, 2, 0>>>>]
VARIABLES s, depth
vars == <<s, depth>>
Ops == {<<"N", <<60>>>>, <<"N", <<61>>>>, <<"Energy", <<2, 99>>>>, <<"Energy", <<99, 99>>>>, <<"P", 0>>, <<"P", 1>>, <<"Q", 2>>, <<"AddStates", <<4>>>>,
        <<"Constrain", <<1, 0>>>>, <<"Constrain", <<0>>>>, <<"Canon", 0>>, <<"Rotate", 0>>, <<"Unit", 0>>, <<"BuildB", 0>>, <<"BuildI", 0>>, <<"Ham", 0>>,
        <<"SetEntry", <<1, 3, 2, 0>>>>, <<"Join", 0>>}
\* early: questions
Early == {"BuildB", "BuildI", "Ham"}
Do(t, op) ==
  LET e == Effect(cfg, t, New(2, FALSE), op[1], op[2], FALSE) IN
  [e EXCEPT !.s = IF op[1] = "Unit" /\ e.ok THEN Unitarize(e.s, [i \in 1 .. e.s.B.c |-> 100 + i]) ELSE e.s]
\* histories the property speaks about
Allowed(t, op) == /\ ~t.dead
                  /\ (op[1] = "Energy" /\ op[2] # <<99, 99>> => EnergyAfter \/ ~t.built)
                  /\ ~Do(t, op).skip /\ ~Big(Do(t, op).s)
Init == s = New(1, FALSE) /\ depth = 0
Next == depth < MaxDepth /\ depth' = depth + 1 /\ \E op \in Ops : Allowed(s, op) /\ s' = Do(s, op).s
Spec == Init /\ [][Next]_vars
Aligned == s.built => /\ s.B.r = Len(s.st) /\ s.B.c = s.H.r /\ Cardinality(Range(s.st)) = Len(s.st)
                      /\ (s.hasU => s.UB.r = Len(s.st) /\ s.UB.c = s.UH.r)
                      /\ (s.hasV => s.V.r = (IF s.hasU THEN s.UB.c ELSE s.B.c))
Herm == Hermitian(s.H) /\ (s.hasV => Hermitian(s.V)) /\ (s.hasU => Hermitian(s.UH))
View(t) == LET b == BuildB(cfg, t, FALSE)
               h == BuildH(cfg, t, FALSE) IN
           <<b.ok, IF b.ok THEN b.s.st ELSE <<>>, IF b.ok THEN b.s.B ELSE <<>>, h.ok, IF h.ok THEN h.s.B ELSE <<>>, IF h.ok THEN h.s.H ELSE <<>>>>
\* what is only possible before the basis exists; restrictions set before it was are replaced, later ones apply one after the other
Timed(op) == op[1] \in {"AddStates", "Energy", "N"}
Independent == ~s.dead => \A q \in Early : LET t == Effect(cfg, s, New(2, FALSE), q, 0, FALSE) IN
   t.ok => \A op \in {x \in Ops : ~Timed(x) \/ (s.built /\ ~Pending(s) /\ x[1] # "AddStates")} : Allowed(s, op) =>
      LET a == Do(s, op)
          b == Do(t.s, op) IN
      \* (parameters cannot be changed any more once a restriction has removed vectors of a diagonalised system)
      (IF op[1] \in {"P", "Q"} /\ s.trans /\ Pending(s) THEN b.ok => a.ok ELSE op[1] # "Join" => a.ok = b.ok) /\ (a.ok /\ b.ok => View(a.s) = View(b.s))
\* a refused change changes nothing
RefusedUnchanged == ~s.dead => \A op \in Ops : Allowed(s, op) => LET a == Do(s, op) IN (~a.ok /\ ~a.s.dead => View(a.s) = View(s))
=============================================================================
