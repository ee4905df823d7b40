------------------------------ MODULE OneBasis ------------------------------
(***************************************************************************)
(* Which states and basis vectors a request for a one-atom system stands   *)
(* for. A state is <<n, l, 2j, 2m>>, an artificial one has n < 0. s2 is    *)
(* twice the spin. Empty ranges (and en = 99) do not restrict.             *)
(***************************************************************************)
EXTENDS One
Range(s) == {s[i] : i \in 1 .. Len(s)}
\* physical levels and states
Level(s2, n, l, j) == /\ l >= 0 /\ l < n
                      /\ j >= IAbs(2 * l - s2) /\ j <= 2 * l + s2 /\ (j - 2 * l - s2) % 2 = 0
Free == 99
InWindow(q, e) == (q.en[1] = Free \/ e > q.en[1]) /\ (q.en[2] = Free \/ e < q.en[2])
Choice(list, all) == IF list = <<>> THEN all ELSE Range(list)
\* states inside the requested ranges
Requested(q) ==
  UNION {UNION {UNION {
     {<<n, l, j, m>> : m \in {x \in Choice(q.m, -j .. j) : x >= -j /\ x <= j /\ (j - x) % 2 = 0}}
     : j \in {x \in Choice(q.j, 0 .. 2 * l + q.s2) : Level(q.s2, n, l, x) /\ InWindow(q, LevelEnergy(<<n, l, x, 0>>))}}
     : l \in {x \in Choice(q.l, 0 .. n - 1) : x >= 0 /\ x < n}}
     : n \in Range(q.n)}
\* rot: the momenta in force, <<>> for arbitrary ones
RotOK(q) == q.refl = 0 \/ (\A i \in 1 .. Len(q.rot) : -q.rot[i] \in Range(q.rot))
Rot(q) == IF RotOK(q) THEN Range(q.rot) ELSE {}
Conserved(q, s) == Art(s) \/ Rot(q) = {} \/ s[4] \in Rot(q)
Core(s) == <<s[1], s[2], s[3], s[4]>>
Listed(q) == {Core(q.add[i]) : i \in 1 .. Len(q.add)}
Mirror(s) == <<s[1], s[2], s[3], -s[4]>>
FromRanges(q) == {s \in Requested(q) : Conserved(q, s)}
FromList(q) == {s \in Listed(q) : Conserved(q, s)}
\* reflection at the xz plane: |m> -> phase |-m>
Phase(s) == LET x == 2 * s[2] + s[4] - s[3]        \* 2 (l + m - j)
                sg == IF (x \div 2) % 2 = 0 THEN 1 ELSE -1 IN
            IF s[4] % 2 = 0 THEN <<sg, 0>>
            ELSE IF s[4] > 0 THEN <<0, sg>>
            ELSE LET y == 2 * s[2] - s[4] - s[3] IN <<0, IF (y \div 2) % 2 = 0 THEN -1 ELSE 1>>
Moves(s) == ~Art(s) /\ s[4] # 0
\* number of vectors with the parity
Vectors(q, S) == IF q.refl = 0 THEN Cardinality(S)
                 ELSE LET up == {s \in S : Moves(s) /\ s[4] > 0}
                          art == {s \in S : Art(s)}
                          zero == {s \in S : ~Art(s) /\ s[4] = 0 /\ Phase(s) = <<q.refl, 0>>}
                      IN Cardinality(up) + Cardinality(art) + Cardinality(zero)
Basis(q) == FromRanges(q) \cup FromList(q)
\* states that occur in the vectors
Occurring(q) == IF q.refl = 0 THEN Basis(q)
                ELSE {s \in Basis(q) : Art(s) \/ s[4] # 0 \/ Phase(s) = <<q.refl, 0>>}
Refused(q) ==
  \/ q.n = <<>>
  \/ q.refl # 0 /\ \E s \in FromRanges(q) : Mirror(s) \notin FromRanges(q)
  \/ \E i \in 1 .. Len(q.add) : Len(q.add[i]) > 4                        \* of another species
  \/ \E s \in Listed(q) : s \in Occurring([q EXCEPT !.add = <<>>])
  \/ q.refl # 0 /\ \E s \in FromList(q) : ~Art(s) /\ Mirror(s) \notin Listed(q)
  \/ ~q.cplx /\ q.refl # 0 /\ \E s \in Basis(q) : ~Art(s) /\ s[4] % 2 # 0 \* needs the imaginary unit
  \/ Occurring(q) = {}
=============================================================================
