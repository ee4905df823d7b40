------------------------------- MODULE OneGen -------------------------------
(* Random histories of settings, questions and edits of two one-atom       *)
(* systems. drop: vectors were removed, mix: vectors are no longer states. *)
EXTENDS One, Json, IOUtils
CONSTANT MaxLen
Configs == ndJsonDeserialize(IOEnv.CONFIGS)
VARIABLES n, set, nv, full, h
vars == <<n, set, nv, full, h>>
R(S) == RandomElement(S)
C == Configs[n]
GInit == /\ n \in 1 .. Len(Configs) /\ set = <<New, New>> /\ h = <<>>
         /\ nv = [i \in 1 .. 2 |-> Configs[n].sys[i].nv] /\ full = [i \in 1 .. 2 |-> Configs[n].sys[i].refl = 0]
Set == <<"E", "E", "E", "B", "B", "B", "EAxes", "BAxes", "ETurn", "BTurn", "Dia", "Dia", "Charge", "Order", "Order", "Dist", "Dist">>
Ask == <<"Ham", "Ham", "Ham", "Ham", "Ham", "BuildI", "States", "Basis">>
Edit == <<"Diag", "Diag", "Canon", "Constrain", "Constrain", "Join", "Join", "Copy", "Save">>
Kind == LET x == R(1 .. (20 + 0 * Len(h))) IN IF x <= 11 THEN Set[R(1 .. Len(Set))] ELSE IF x <= 18 THEN Ask[R(1 .. Len(Ask))] ELSE Edit[R(1 .. Len(Edit))]
Y == IF C.cplx THEN R({0, 0, 1, -1, 2}) ELSE IF R(1 .. 12) = 1 THEN 1 ELSE 0
Field == LET k == R(1 .. 6) IN CASE k = 1 -> <<0, 0, 0>> [] k = 2 -> <<0, 0, R({1, 2, -1})>> [] k = 3 -> <<R({1, 2, -1}), 0, 0>>
           [] OTHER -> <<R(-1 .. 2), Y, R(-2 .. 2)>>
Units == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>}
Arg(k, x) ==
  CASE k \in {"E", "B"} -> Field
    [] k \in {"EAxes", "BAxes"} -> <<Field, R(Units), R(Units)>>
    [] k \in {"ETurn", "BTurn"} -> <<Field, IF C.cplx THEN <<R(-1 .. 2), R(-1 .. 3), R(0 .. 3)>> ELSE <<0, R({0, 2}), 0>>>>
    [] k = "Dia" -> R({TRUE, FALSE})
    [] k = "Charge" -> R({0, 1, 1, -1, 2}) [] k = "Order" -> R(0 .. 3) [] k = "Dist" -> R({0, 1, 2, 2})
    [] k = "Constrain" -> (LET s == SelectSeq([i \in 1 .. nv[x] |-> i - 1], LAMBDA i : R(1 .. 5) # 1) IN IF s = <<>> THEN <<0>> ELSE s)
    [] OTHER -> 0
Sensible(k, x) ==
  CASE k = "Canon" -> full[x]
    [] k = "Join" -> nv[3 - x] > 0 /\ nv[x] > 0
    [] k = "Constrain" -> nv[x] > 1
    [] OTHER -> TRUE
O(k, x, a) == [o |-> k, s |-> x, a |-> a]
\* give the other system the settings of x, then join them
Sync(x) == LET v == set[x]
               y == 3 - x IN
  <<O("E", x, v.e), O("B", x, v.b), O("E", y, v.e), O("B", y, v.b), O("Dia", y, v.dia), O("Charge", y, v.charge), O("Order", y, v.order), O("Dist", y, v.dist)>>
GNext == /\ Len(h) < MaxLen
         /\ \E k \in {Kind} : \E x \in {R({1, 1, 2})} :
            IF ~Sensible(k, x) THEN UNCHANGED <<set, nv, full>> /\ h' = Append(h, [o |-> "Ham", s |-> x, a |-> 0])
            ELSE \E a \in {Arg(k, x)} :
              /\ h' = (IF k = "Join" /\ R(1 .. 3) # 1 THEN h \o Sync(x) ELSE h) \o <<O(k, x, a)>>
              /\ set' = (IF Len(h') > Len(h) + 1 THEN [set EXCEPT ![3 - x] = set[x]] ELSE [set EXCEPT ![x] = Change(C.cplx, @, k, a).set])
              /\ CASE k = "Constrain" -> nv' = [nv EXCEPT ![x] = Len(a)] /\ full' = [full EXCEPT ![x] = FALSE]
                   [] k = "Join" -> IF set'[1] = set'[2] THEN nv' = [i \in 1 .. 2 |-> IF i = x THEN nv[1] + nv[2] ELSE nv[i]] /\ full' = [full EXCEPT ![x] = full[1] /\ full[2]]
                                    ELSE UNCHANGED <<nv, full>>
                   [] OTHER -> UNCHANGED <<nv, full>>
         /\ UNCHANGED n
GSpec == GInit /\ [][GNext]_vars
Emit == Len(h) >= MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson([n |-> n, h |-> h]))
=============================================================================
