------------------------------ MODULE ReaderGen ------------------------------
(* Random sessions with the reader: single lines as a calculation inside the *)
(* interface hands them over, whole outputs, shown matrices, clean-ups.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxLen
VARIABLES h
Z == 0 * Len(h)
R(S) == RandomElement(S)
Pick(s) == s[R(1 .. Len(s) + Z)]
Num == Pick(<<0, 1, 2, 3, 9, 10, 99, 100, 12345, 999999, 1234567, 9999999>>)
Name == Pick(<<"/tmp/basis_one_0A.csv", "/tmp/a b/basis_two_17.csv", "C:/x/y", "rel", "/c/cache_matrix_real/one_FF", "/tmp/>>OUT/x", "/home/u\\\\v/two_1">>)
Other == Pick(<<"One-atom Hamiltonian, basis size with restrictions: 12", "", ">", ">>", ">> OUT      1", " >>OUT      1      0      1      0 /x", ">>XYZ      3", ">>out", "END",
                "TYP", "Two-atom Hamiltonian, 3. Hamiltonian diagonalized", "x>>END", ">>EN">>)
One == LET w == R(1 .. 16 + Z) IN
  IF w <= 2 THEN [k |-> "TYP", n |-> R(0 .. 3)]
  ELSE IF w = 3 THEN [k |-> "BAS", n |-> Num]
  ELSE IF w <= 5 THEN [k |-> "STA", f |-> Name]
  ELSE IF w = 6 THEN [k |-> "TOT", n |-> Num]
  ELSE IF w <= 8 THEN [k |-> "DIM", n |-> Num]
  ELSE IF w <= 12 THEN [k |-> "OUT", i |-> Num, step |-> Num, blocks |-> Num, block |-> Num, f |-> Name]
  ELSE IF w = 13 /\ R(1 .. 3) = 1 THEN [k |-> "END"]
  ELSE [k |-> "Text", f |-> Other]
RECURSIVE Several(_)
Several(n) == IF n = 0 THEN <<>> ELSE LET x == IF R(1 .. 25 + Z) = 1 THEN [k |-> "ERR", f |-> Pick(<<"no", "For fields with non-zero y-coordinates, a complex data type is needed.">>)] ELSE One IN <<x>> \o Several(n - 1)
Op == LET w == R(1 .. 20 + Z) IN
  IF w <= 11 THEN [o |-> "Line", a |-> One, style |-> Pick(<<"bytes", "str", "pipy">>)]
  ELSE IF w <= 14 THEN [o |-> "Take", a |-> R(1 .. 3)]
  ELSE IF w <= 16 THEN [o |-> "TakeFile", a |-> R(1 .. 3)]
  ELSE IF w = 17 THEN [o |-> "Clear"]
  ELSE [o |-> "Stream", a |-> LET x == Several(R(0 .. 14 + Z)) IN IF R(1 .. 2 + Z) = 1 THEN x \o <<[k |-> "END"]>> \o Several(R(0 .. 2 + Z)) ELSE x,
        quit |-> IF R(1 .. 5 + Z) = 1 THEN R(1 .. 6 + Z) ELSE 0]
Init == h = <<>>
Next == Len(h) < MaxLen /\ \E x \in {Op} : h' = Append(h, x)
Spec == Init /\ [][Next]_h
Emit == Len(h) = MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson(h))
=============================================================================
