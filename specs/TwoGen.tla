------------------------------- MODULE TwoGen -------------------------------
(* Random histories of geometries, questions and edits of two two-atom     *)
(* systems. Questions are asked only when the geometry in force has exact  *)
(* tensors or must be refused.                                             *)
EXTENDS Two, Json, IOUtils
CONSTANT MaxLen
Configs == ndJsonDeserialize(IOEnv.CONFIGS)
VARIABLES n, set, nv, full, h
vars == <<n, set, nv, full, h>>
R(S) == RandomElement(S)
C == Configs[n]
GInit == /\ n \in 1 .. Len(Configs) /\ set = <<Far, Far>> /\ h = <<>>
         /\ nv = [i \in 1 .. 2 |-> Configs[n].sys[i].nv] /\ full = [i \in 1 .. 2 |-> Configs[n].sys[i].perm = 0]
\* the vector of a request, also when it was drawn as a dummy
VecOf2(y, a) == IF Len(a) = 3 THEN a ELSE <<<<0, 0, 1>>, 1, C.rs[1]>>
Sq2(v, p) == v[1] * v[1] + v[2] * v[2] + p * p
Whole(d, dn, r) == \A i \in 1 .. 3 : (d[i] * r) % dn = 0
Square(m) == \E q \in 1 .. 60 : q * q = m
\* the tensors of g are integers, or g is not readable
Exact(g) == \/ g.r = 0
            \/ Whole(g.dir, g.dn, g.r)
               /\ C.u.L % g.r = 0
               /\ (g.p = 0 \/ (LET v == Vec(g) IN v[2] # 0 \/ ~G!Possible(v, g.p)
                     \/ (g.p # IAbs(v[3]) /\ Square(Sq2(v, g.p)) /\ C.u.L % G!Isqrt(Sq2(v, g.p)) = 0)))
Set == <<"Dist", "Dist", "Dist", "Vec", "Vec", "Vec", "Vec", "Angle", "Angle", "Order", "Order", "GT", "GT", "GT", "Surf", "Surf">>
Ask == <<"Ham", "Ham", "Ham", "Ham", "Ham", "BuildI", "States", "Basis">>
Edit == <<"Diag", "Diag", "Canon", "Constrain", "Constrain", "Join", "Join", "Copy", "Save">>
Kind == LET x == R(1 .. (20 + 0 * Len(h))) IN IF x <= 11 THEN Set[R(1 .. Len(Set))] ELSE IF x <= 18 THEN Ask[R(1 .. Len(Ask))] ELSE Edit[R(1 .. Len(Edit))]
Dir == C.dirs[R(1 .. Len(C.dirs))]
ADir == C.angles[R(1 .. Len(C.angles))]
VecOf == LET d == Dir
             rs == {r \in {C.rs[i] : i \in 1 .. Len(C.rs)} : Whole(d[1], d[2], r)} IN <<d[1], d[2], R(rs)>>
Arg(k, x) ==
  CASE k = "Dist" -> (IF R(1 .. 8) = 1 THEN 0 ELSE C.rs[R(1 .. Len(C.rs))])
    [] k = "Vec" -> VecOf
    [] k = "Angle" -> ADir
    [] k = "Order" -> R({2, 3, 3, 4, 4, 4, 5})
    [] k = "GT" -> R({TRUE, FALSE, TRUE})
    [] k = "Surf" -> (IF R(1 .. 3) = 1 THEN 0 ELSE C.ps[R(1 .. Len(C.ps))])
    [] k = "Constrain" -> (LET s == SelectSeq([i \in 1 .. nv[x] |-> i - 1], LAMBDA i : R(1 .. 5) # 1) IN IF s = <<>> THEN <<0>> ELSE s)
    [] OTHER -> 0
Sensible(k, x) ==
  CASE k = "Canon" -> full[x]
    [] k = "Join" -> nv[3 - x] > 0 /\ nv[x] > 0
    [] k = "Constrain" -> nv[x] > 1
    [] OTHER -> TRUE
O(k, x, a) == [o |-> k, s |-> x, a |-> a]
Sync(x) == LET v == set[x]
               y == 3 - x
               same(s) == <<O("Surf", s, 0), O("Vec", s, <<v.dir, v.dn, v.r>>), O("Order", s, v.order), O("GT", s, v.gt)>> IN same(x) \o same(y)
Synced(g) == [g EXCEPT !.p = 0]
GNext == /\ Len(h) < MaxLen
         /\ \E k0 \in {Kind} : \E x \in {R({1, 1, 2})} :
            \E k \in {IF ~Sensible(k0, x) THEN "Ham" ELSE k0} :
            IF k \notin Settings2 /\ (~Exact(set[x]) \/ (k = "Join" /\ ~Exact(set[3 - x])))
            THEN \E y \in {IF Exact(set[x]) THEN 3 - x ELSE x} : \E s \in {R(1 .. 2)} : \E a \in {IF s = 1 THEN VecOf ELSE <<0>>} :
                 LET g == [set[y] EXCEPT !.p = 0] IN
                 /\ h' = h \o <<O("Surf", y, 0)>> \o (IF s = 1 \/ ~Exact(g) THEN <<O("Vec", y, VecOf2(y, a))>> ELSE <<>>)
                 /\ set' = [set EXCEPT ![y] = IF s = 1 \/ ~Exact(g) THEN Move(g, "Vec", VecOf2(y, a)).set ELSE g]
                 /\ UNCHANGED <<nv, full>>
            ELSE \E a \in {Arg(k, x)} :
              /\ IF k = "Join" /\ set[x].r # 0 /\ R(1 .. 3) # 1
                 THEN h' = h \o Sync(x) \o <<O(k, x, a)>> /\ set' = [i \in 1 .. 2 |-> Synced(set[x])]
                 ELSE h' = Append(h, O(k, x, a)) /\ set' = [set EXCEPT ![x] = Move(@, k, a).set]
              /\ CASE k = "Constrain" /\ Readable(set[x]) -> nv' = [nv EXCEPT ![x] = Len(a)] /\ full' = [full EXCEPT ![x] = FALSE]
                   [] k = "Join" -> IF set'[1] = set'[2] THEN nv' = [i \in 1 .. 2 |-> IF i = x THEN nv[1] + nv[2] ELSE nv[i]] /\ full' = [full EXCEPT ![x] = full[1] /\ full[2]]
                                    ELSE UNCHANGED <<nv, full>>
                   [] OTHER -> UNCHANGED <<nv, full>>
         /\ UNCHANGED n
GSpec == GInit /\ [][GNext]_vars
Emit == Len(h) >= MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson([n |-> n, h |-> h]))
=============================================================================
