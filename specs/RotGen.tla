------------------------------- MODULE RotGen -------------------------------
(* Random histories of rotations, fields and questions of a one-atom system *)
EXTENDS Rot, Json, IOUtils
CONSTANT MaxLen
Configs == ndJsonDeserialize(IOEnv.CONFIGS)
VARIABLES n, h, last
vars == <<n, h, last>>
R(S) == RandomElement(S)
C == Configs[n]
GInit == n \in 1 .. Len(Configs) /\ h = <<>> /\ last = <<Zero, Zero, Zero>>
Family == <<<<1, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -1>>, <<-1, 0>>, <<4, 3>>, <<3, 4>>, <<-3, 4>>, <<4, -3>>, <<3, -4>>, <<-4, 3>>, <<-1, 1>>, <<0, -1>>>>
AnyAngle(x) == Family[R(1 .. Len(Family) + 0 * x)]
Outer(x) == IF C.cplx \/ R(1 .. (8 + 0 * x)) = 1 THEN AnyAngle(x) ELSE R({Zero, Zero, Zero, <<-1, 0>>})
Angles(x) == <<Outer(x), AnyAngle(x), Outer(x)>>
Kinds == <<"Rotate", "Rotate", "Rotate", "Axes", "Back", "Overlap", "OverlapAxes", "E", "E", "B", "Ham", "Diag", "Save", "Copy">>
Y == IF C.cplx THEN R({0, 0, 1, -1}) ELSE IF R(1 .. 12) = 1 THEN 1 ELSE 0
Field == LET k == R(1 .. 4) IN IF k = 1 THEN <<0, 0, 0>> ELSE <<R(-1 .. 2), Y, R(-2 .. 2)>>
Inverse(t) == <<Back(t[3]), Back(t[2]), Back(t[1])>>
Some == SelectSeq([i \in 1 .. Len(C.st) |-> C.st[i]], LAMBDA i : R(1 .. 3) = 1)
O(k, a) == [o |-> k, a |-> a]
GNext == /\ Len(h) < MaxLen /\ UNCHANGED n
         /\ \E k \in {Kinds[R(1 .. (Len(Kinds) + 0 * Len(h)))]} : \E t \in {Angles(Len(h))} : \E s \in {Some} :
              /\ h' = Append(h, CASE k \in {"Rotate", "Axes"} -> O(k, t)
                                  [] k = "Back" -> O("Rotate", Inverse(last))
                                  [] k \in {"Overlap", "OverlapAxes"} -> O(k, <<IF s = <<>> THEN <<C.st[1]>> ELSE s, t>>)
                                  [] k \in {"E", "B"} -> O(k, Field)
                                  [] OTHER -> O(k, 0))
              /\ last' = (CASE k = "Rotate" -> t [] k = "Back" -> Inverse(last) [] OTHER -> last)
GSpec == GInit /\ [][GNext]_vars
Emit == Len(h) >= MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson([n |-> n, h |-> h]))
=============================================================================
