------------------------------ MODULE StoreGen ------------------------------
(* Random histories of two stores (and of the calculation engine's one).   *)
EXTENDS Store, TLC, Json, IOUtils
CONSTANT MaxLen
Configs == ndJsonDeserialize(IOEnv.CONFIGS)
VARIABLES n, ob, h
vars == <<n, ob, h>>
R(S) == RandomElement(S)
C == Configs[n]
GInit == n \in 1 .. Len(Configs) /\ ob = <<New(1), New(R({0, 1, 2}))>> /\ h = <<>>
Kinds == <<"Ask", "Ask", "Ask", "Ask", "Ask", "Ask", "Ask", "Pre", "Pre", "Method", "Method", "Defect", "Load", "Save", "Revive", "Open", "Child", "Child", "Child", "Par", "Old", "Old", "OldPar">>
Cut == IF R(1 .. 5) <= 3 THEN R(1 .. 22) ELSE 0
\* operations since the last announcement (0: many)
Since == IF \E i \in 1 .. 4 : Len(h) >= i /\ h[Len(h) + 1 - i].o = "Pre" THEN CHOOSE i \in 1 .. 4 : Len(h) >= i /\ h[Len(h) + 1 - i].o = "Pre" /\ \A k \in 1 .. i - 1 : h[Len(h) + 1 - k].o # "Pre" ELSE 0
\* a request, often one for announced states
About == IF Since = 0 THEN {} ELSE LET s == h[Len(h) + 1 - Since].a.s IN
         {r \in 1 .. Len(C.req) : \E i, k \in 1 .. Len(s) : C.req[r].a = s[i] /\ C.req[r].b = s[k]}
Req == IF About # {} /\ R(1 .. 3) > 1 THEN R(About) ELSE R(1 .. (Len(C.req) + 0 * Len(h)))
OldReq == C.oldreq[R(1 .. (Len(C.oldreq) + 0 * Len(h)))]
States == LET k == R(1 .. 4) IN [i \in 1 .. k |-> R(1 .. Len(C.st))]
Olds(k) == [i \in 1 .. k |-> OldReq]
Arg(k) ==
  CASE k = "Ask" -> Req
    [] k = "Pre" -> IF R(1 .. 2) = 1 THEN LET q == C.req[Req] IN [k |-> q.k, kr |-> q.kr, q |-> 99, s |-> <<q.a, q.b>>] ELSE [k |-> R({"Multi", "Multi", "Radial", "Dip", "Mag", "Dia"}), kr |-> R(1 .. 3), q |-> R({-1, 0, 1, 99}), s |-> States]
    [] k = "Method" -> R({1, 2})
    [] k = "Defect" -> R(1 .. C.ndb)
    [] k = "Load" -> R(1 .. Len(C.csv))
    [] k = "Open" -> R(0 .. 2)
    [] k = "Child" -> [r |-> [i \in 1 .. R(1 .. 2) |-> Req], cut |-> Cut, fresh |-> R({TRUE, FALSE})]
    [] k = "Par" -> [i \in 1 .. R(2 .. 4) |-> [r |-> [x \in 1 .. R(1 .. 2) |-> Req], cut |-> IF R(1 .. 3) = 1 THEN Cut ELSE 0, fresh |-> R({TRUE, FALSE})]]
    [] k = "Old" -> [m |-> R({1, 1, 1, 2, 2, 3}), dir |-> R({1, 2}), s |-> States, r |-> Olds(R(1 .. 3)), cut |-> IF R(1 .. 2) = 1 THEN Cut ELSE 0]
    [] k = "OldPar" -> [i \in 1 .. R(2 .. 3) |-> [m |-> R({1, 1, 2}), dir |-> 1, s |-> States, r |-> Olds(R(1 .. 2)), cut |-> IF R(1 .. 3) = 1 THEN Cut ELSE 0]]
    [] OTHER -> 0
Pair == CASE Since = 1 -> <<"Method", "Method", "Method", "Defect", "Load", "Revive", "Ask", "Child", "">>
          [] Since = 2 -> <<"Ask", "Ask", "Ask", "Ask", "Ask", "Child", "", "", "">>
          [] Since = 3 -> <<"Method", "Method", "Method", "Ask", "Defect", "", "", "", "">>
          [] Since = 4 -> <<"Ask", "Ask", "Ask", "Ask", "Ask", "Child", "", "", "">>
          [] OTHER -> <<"", "", "", "", "", "", "", "", "">>
GNext == /\ Len(h) < MaxLen
         \* (announce, change something, ask)
         /\ \E p \in {Pair[R(1 .. 9 + 0 * Len(h))]} :
            \E k \in {IF p = "" THEN Kinds[R(1 .. (Len(Kinds) + 0 * Len(h)))] ELSE p} : \E x \in {IF p = "" THEN R({1, 2}) ELSE h[Len(h)].s} : \E a \in {Arg(k)} :
            LET y == IF k = "Load" /\ Len(C.csv) = 0 THEN "Save" ELSE k IN
            /\ h' = Append(h, [o |-> y, s |-> x, a |-> a])
            /\ ob' = [ob EXCEPT ![x] = IF y = "Open" THEN New(a) ELSE Change(@, y, a)]
         /\ UNCHANGED n
GSpec == GInit /\ [][GNext]_vars
Emit == Len(h) = MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson([n |-> n, dirs |-> <<1, 0>>, h |-> h]))
=============================================================================
