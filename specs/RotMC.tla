------------------------------- MODULE RotMC -------------------------------
(***************************************************************************)
(* The elements of module Rot form a representation: unitary, composing,   *)
(* -1 or 1 for a full turn, the identity for there and back.               *)
(* Slip "transposed": rows and columns of the phases exchanged.            *)
(***************************************************************************)
EXTENDS Rot
CONSTANTS Slip, MaxJ
VARIABLES jj, a, b
Angles == {<<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 0>>, <<1, -1>>, <<4, 3>>, <<3, -4>>, <<-3, 4>>}
Init == jj = 0 /\ a \in Angles /\ b = Zero
Next == jj = 0 /\ jj' \in 1 .. MaxJ /\ b' \in Angles /\ UNCHANGED a
Spec == Init /\ [][Next]_<<jj, a, b>>
N == jj + 1
M(i) == 2 * (i - 1) - jj
Mat3(x, y, z) == TLCEval([i \in 1 .. N |-> [k \in 1 .. N |-> IF Slip = "transposed" THEN D(jj, M(i), M(k), z, y, x) ELSE D(jj, M(i), M(k), x, y, z)]])
Mul(A, B) == TLCEval(Apply(A, B, N, N))
One1 == [i \in 1 .. N |-> [k \in 1 .. N |-> IF i = k THEN <<K, 0>> ELSE Z]]
Tol == 40
Unitary == jj = 0 \/ Like(Mul(Mat3(a, b, a), Adj(Mat3(a, b, a), N, N)), One1, Tol)
BackAgain == jj = 0 \/ Like(Mul(Mat3(a, b, <<4, 3>>), Mat3(<<4, -3>>, Back(b), Back(a))), One1, Tol)
Factors == jj = 0 \/ Like(Mul(Mat3(a, Zero, Zero), Mul(Mat3(Zero, b, Zero), Mat3(Zero, Zero, <<4, 3>>))), Mat3(a, b, <<4, 3>>), Tol)
\* (phases and small elements of composed angles; sizes stay squares or 2 if one of them is 1)
Composes == (jj > 0 /\ (Size(a) = 1 \/ Size(b) = 1)) => Like(Mul(Mat3(Zero, a, Zero), Mat3(Zero, b, Zero)), Mat3(Zero, Plus2(a, b), Zero), Tol)
FullTurn == jj = 0 \/ Like(Mat3(Zero, <<-1, 0>>, Zero), IF jj % 2 = 0 THEN One1 ELSE Negative(One1), 2)
Quarter == jj = 0 \/ Like(Mul(Mul(Mat3(Zero, <<1, 1>>, Zero), Mat3(Zero, <<1, 1>>, Zero)), One1), Mat3(Zero, <<0, 1>>, Zero), Tol)
\* spin 1 is a vector: its m = 0 column is the new z axis
VectorLike == jj = 2 => LET z == NewZ(<<a, b, Zero>>)
                            m == Mat3(a, b, Zero) IN
  /\ IAbs(m[2][2][1] - (K * Co(b)) \div Size(b)) <= Tol
  /\ IAbs(m[3][2][1] + ((((K * z[1]) \div (Size(a) * Size(b))) * 707) \div 1000)) <= Tol
=============================================================================
