------------------------------ MODULE GreenGen ------------------------------
(* Random histories of one Green tensor object: plates are set, replaced   *)
(* and refused between questions for the three tensors.                    *)
EXTENDS Green, Json, IOUtils, TLC
CONSTANT MaxLen
Geometries == ndJsonDeserialize(IOEnv.CONFIGS)
VARIABLES n, h
R(S) == RandomElement(S)
G == Geometries[n]
GInit == n \in 1 .. Len(Geometries) /\ h = <<>>
Kind == R({"DD", "DQ", "QD", "DD", "Plate", "Copy"})
Op == LET x == R(1 .. (9 + 0 * Len(h))) IN
  CASE x <= 2 -> [o |-> "DD", a |-> 0] [] x <= 4 -> [o |-> "DQ", a |-> 0] [] x <= 6 -> [o |-> "QD", a |-> 0]
    [] x = 7 -> [o |-> "Copy", a |-> 0]
    [] OTHER -> [o |-> "Plate", a |-> IF Len(G.plates) > 0 /\ R(1 .. 4) # 1 THEN G.plates[R(1 .. Len(G.plates))] ELSE G.bad[R(1 .. Len(G.bad))]]
GNext == Len(h) < MaxLen /\ n' = n /\ \E o \in {Op} : h' = Append(h, o)
GSpec == GInit /\ [][GNext]_<<n, h>>
Emit == Len(h) >= MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson([n |-> n, h |-> h]))
=============================================================================
