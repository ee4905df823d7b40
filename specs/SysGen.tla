------------------------------- MODULE SysGen -------------------------------
(* Random histories of two systems, printed as operations. The arguments   *)
(* are chosen with an eye on the state the model is in.                    *)
EXTENDS Sys, Json, IOUtils
CONSTANTS MaxLen, Mode
Configs == ndJsonDeserialize(IOEnv.CONFIGS)
VARIABLES n, ss, h
vars == <<n, ss, h>>
C == [pool |-> Configs[n].pool, sys |-> Configs[n].sys, V |-> Configs[n].V, W |-> Configs[n].W, order |-> Numbers(Len(Configs[n].pool))]
R(S) == RandomElement(S)
GInit == n \in 1 .. Len(Configs) /\ ss = [i \in 1 .. 2 |-> New(i, Configs[n].sys[i].ms)] /\ h = <<>>
Early == <<"N", "L", "M", "Energy", "AddStates", "AddStates", "P", "Q", "Norm", "JR">>
Sets == <<"N", "L", "J", "M", "NR", "LR", "JR", "MR", "Energy", "Norm", "P", "P", "P", "Q", "Q", "Sym", "AddStates">>
Asks == <<"BuildB", "BuildI", "BuildH", "BuildH", "States", "MultiIndex", "NumStates", "NumVec", "Basis", "Ham", "Ham", "Overlap", "OverlapRot",
          "Wild", "OverlapIdx", "Main", "StateIdx", "VecIdx", "VecIdx", "Entry", "Connect">>
Edits == <<"Constrain", "Constrain", "Join", "Join", "SetEntry", "SetEntry", "AddEntry", "Canon", "Rotate", "Rotate", "Diag", "Forget", "Unit", "Copy", "Assign">>
Kind == LET x == R(1 .. 20) IN
  IF Len(h) < 3 /\ x < 15 THEN Early[R(1 .. Len(Early))]
  ELSE IF x <= (IF Mode = "life" THEN 9 ELSE 5) THEN Sets[R(1 .. Len(Sets))]
  ELSE IF x <= (IF Mode = "life" THEN 17 ELSE 12) THEN Asks[R(1 .. Len(Asks))] ELSE Edits[R(1 .. Len(Edits))]
Two(S) == LET x == R(S) y == R(S) IN IF x = y \/ R(1 .. 2) = 1 THEN <<x>> ELSE <<x, y>>
\* an id of a state, preferably one of system s
Id(s) == LET P == {i \in Range(s.st) : i <= 100} IN IF P = {} \/ R(1 .. 8) = 1 THEN R(1 .. Len(C.pool)) ELSE R(P)
Ids(s) == LET k == R(1 .. 4) IN IF k = 1 THEN <<Id(s)>> ELSE IF k < 4 THEN <<Id(s), Id(s)>> ELSE <<Id(s), Id(s), Id(s)>>
Num == <<R(-2 .. 3), IF Configs[n].cplx THEN R({0, 0, 1, -1, 2}) ELSE 0>>
Perm(k) == SelectSeq(LET a == R(0 .. k) IN [i \in 1 .. k |-> (i + a) % k], LAMBDA x : R(1 .. 4) # 1)
Arg(k, s) ==
  CASE k = "N" -> Two({60, 61}) [] k = "L" -> Two({0, 1}) [] k = "J" -> Two({1, 3}) [] k = "M" -> Two({-1, 1, 3, -3})
    [] k = "NR" -> R({<<60, 60>>, <<61, 61>>, <<60, 61>>, <<59, 61>>}) [] k = "LR" -> R({<<0, 0>>, <<0, 1>>, <<1, 2>>})
    [] k = "JR" -> R({<<1, 1>>, <<1, 3>>, <<3, 3>>}) [] k = "MR" -> R({<<-1, 1>>, <<1, 1>>, <<1, 3>>, <<-3, 3>>, <<-1, 3>>})
    [] k = "Energy" -> R({<<-4, 4>>, <<-99, 2>>, <<-3, 99>>, <<99, 4>>, <<99, 99>>, <<-1, 8>>, <<0, 3>>, <<-6, 6>>})
    [] k = "Norm" -> R({50, 50, 500, 999, 1500})
    [] k = "AddStates" -> Two(1 .. Len(C.pool))
    [] k \in {"P", "Q"} -> R({0, 1, 1, 2, -1})
    [] k \in {"Overlap", "OverlapRot", "StateIdx", "VecIdx"} -> Ids(s)
    [] k = "Wild" -> <<R({60, 61, 99}), R({0, 1, 99}), R({1, 3, 99}), R({-1, 1, 99, 99})>>
    [] k = "OverlapIdx" -> (IF Len(s.st) = 0 THEN <<0>> ELSE Two(0 .. Len(s.st) - 1))
    [] k = "Connect" -> R({50, 500, 1500})
    [] k = "Constrain" -> (IF s.B.c = 0 THEN <<0>> ELSE IF R(1 .. 12) = 1 THEN <<0, s.B.c>> ELSE IF R(1 .. 12) = 1 THEN <<0, 0>>
                           ELSE LET p == Perm(s.B.c) IN IF Len(p) < 2 THEN <<s.B.c - 1>> ELSE p)
    [] k = "Entry" -> <<Id(s), Id(s)>>
    [] k \in {"SetEntry", "AddEntry"} -> (LET i == Id(s) j == Id(s) IN <<i, j>> \o (IF i = j THEN <<R(-3 .. 4), 0>> ELSE Num))
    [] OTHER -> 0
\* left out: what the model does not know or the code does not define
Sensible(k, b, s, o) ==
  CASE k = "OverlapIdx" -> s.built /\ s.mode = "exact" /\ b.ok
    [] k \in {"P", "Q"} -> s.mode = "exact" \/ (s.cont /\ s.hasU)
    [] k \in {"Canon", "SetEntry", "AddEntry"} -> s.mode = "exact"
    [] k = "Forget" -> s.mode = "exact"
    [] k = "Join" -> s.mode = "exact" /\ o.mode = "exact"
    [] k = "Norm" -> R(1 .. 3) = 1
    [] OTHER -> TRUE
Log(k, x, a) == h' = Append(h, [o |-> k, s |-> x, a |-> a])
GNext == /\ Len(h) < MaxLen
         /\ \E k \in {Kind} : \E x \in {IF Len(h) < 5 THEN 1 ELSE R({1, 1, 1, 2})} :
            LET s == ss[x]
                o == ss[3 - x]
                b == BuildB(C, s, FALSE) IN
            IF s.dead \/ ~Sensible(k, b, s, o) THEN UNCHANGED <<ss>> /\ Log("Norm", x, s.thr)
            ELSE \E a \in {Arg(k, b.s)} :
                   LET e == Effect(C, s, o, k, a, FALSE)
                       t == IF k = "Diag" /\ e.ok /\ ~Diagonal(e.s.H) THEN [e.s EXCEPT !.B = Times1000(@), !.H = Times1000(Mat(@.r, @.c, LAMBDA i, j : IF i = j THEN e.s.H.e[i][i] ELSE Z)), !.mode = "diag", !.trans = TRUE]
                            ELSE IF k = "Unit" /\ e.ok THEN Unitarize(e.s, [i \in 1 .. e.s.B.c |-> 100 + i]) ELSE e.s IN
                   IF e.skip \/ Big(t) \/ Big(e.o) THEN UNCHANGED ss /\ Log("Norm", x, s.thr)
                   ELSE ss' = (IF x = 1 THEN <<t, e.o>> ELSE <<e.o, t>>) /\ Log(k, x, a)
         /\ UNCHANGED n
GSpec == GInit /\ [][GNext]_vars
Emit == Len(h) = MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson([n |-> n, h |-> h]))
=============================================================================
