------------------------------- MODULE GreenMC -------------------------------
(***************************************************************************)
(* The tensors of module Green satisfy the laws of electrostatics on a     *)
(* grid of positions, and an object that keeps computed tensors next to    *)
(* the plate always answers for the plate in force (slips: a plate that    *)
(* leaves one kept tensor in place; a refused plate that stays).           *)
(***************************************************************************)
EXTENDS Green, FiniteSets
CONSTANTS Slip, Grid
Vectors == {v \in (-Grid .. Grid) \X (-Grid .. Grid) \X (-Grid .. Grid) : Sq(v) > 0 /\ \E k \in 1 .. 20 : k * k = Sq(v)}
Neg(v) == <<-v[1], -v[2], -v[3]>>
VARIABLES v, p, kept, ans
vars == <<v, p, kept, ans>>
Plates == 0 .. 2 * Grid
Init == v \in Vectors /\ p = 0 /\ kept = [k \in {"dd", "dq", "qd"} |-> -1] /\ ans = 0
Plate == \E q \in Plates \ {0} :
   /\ p' = (IF Possible(v, q) \/ Slip = "stays" THEN q ELSE p)
   /\ kept' = (IF ~Possible(v, q) THEN kept ELSE [k \in DOMAIN kept |-> IF Slip = "kept" /\ k = "qd" THEN kept[k] ELSE -1])
   /\ UNCHANGED <<v, ans>>
Ask == \E k \in DOMAIN kept :
   /\ kept' = [kept EXCEPT ![k] = IF @ = -1 THEN p ELSE @]
   /\ ans' = kept'[k] /\ UNCHANGED <<v, p>>
Next == Plate \/ Ask
Spec == Init /\ [][Next]_vars
Current == \A k \in DOMAIN kept : kept[k] \in {-1, p}
Accepted == p # 0 => Possible(v, p)
\* laws, checked for the plates whose lengths are integers
Whole(w) == \E k \in 1 .. 30 : k * k = Sq(w)
L(w) == IF p = 0 THEN Isqrt(Sq(w)) ELSE Isqrt(Sq(w)) * Isqrt(Sq(Image(w, p)))
Fits == p = 0 \/ (Whole(Image(v, p)) /\ L(v) <= 12)
I3 == 1 .. 3
Laws == Fits =>
  LET m == L(v) IN
  \* no sources outside the atoms: the tensors of free space and of the plate are traceless in the quadrupole indices
  /\ \A i \in I3 : DQ(v, p, m, i, 1, 1) + DQ(v, p, m, i, 2, 2) + DQ(v, p, m, i, 3, 3) = 0
  /\ \A k \in I3 : QD(v, p, m, 1, 1, k) + QD(v, p, m, 2, 2, k) + QD(v, p, m, 3, 3, k) = 0
  /\ p = 0 => DD(v, p, m, 1, 1) + DD(v, p, m, 2, 2) + DD(v, p, m, 3, 3) = 0
  \* exchanging the atoms transposes the tensors
  /\ \A i, j \in I3 : DD(v, p, m, i, j) = DD(Neg(v), p, m, j, i)
  /\ \A i, j, k \in I3 : QD(v, p, m, i, j, k) = DQ(Neg(v), p, m, k, i, j)
  \* on the plate the field is that of a grounded conductor: nothing along it
  /\ p # 0 /\ v[3] = p => \A k \in {1, 2} : \A j \in I3 : DD(v, p, m, j, k) = 0 
  \* the derivative of the plate's potential is curl free
  /\ \A i, j, k \in I3 : p = 0 => DQ(v, p, m, i, j, k) = DQ(v, p, m, i, k, j)
=============================================================================
