------------------------------ MODULE MatFile ------------------------------
(***************************************************************************)
(* The file format of stored matrices. A file is a sequence of bytes; a    *)
(* number is preceded by a type tag of two bytes; a vector is its length   *)
(* (a tagged 32-bit number), a tag and the values. A sparse matrix is      *)
(* flags, rows, cols, real values, imaginary values (complex only), inner  *)
(* indices, outer index starts. A stored matrix is entries then basis.     *)
(* Floating-point values are kept as their eight bytes.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Bad == [ok |-> FALSE]
Tag(t) == <<t % 256, t \div 256>>
I32(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, x \div 16777216>>
\* tags with the same size and meaning for the values that occur
IsTag(f, p, ts) == p + 1 <= Len(f) /\ f[p] + 256 * f[p + 1] \in ts
IntTags == {1032, 1132}
\* the values of an empty vector have no type
AnyTags == {1008, 1016, 1032, 1064, 1108, 1116, 1132, 1164, 2032, 2064, 3000, 4000}
\* value of a 32-bit number, -1 when it is negative
Val(f, p) == IF f[p + 3] > 127 THEN -1 ELSE f[p] + 256 * f[p + 1] + 65536 * f[p + 2] + 16777216 * f[p + 3]
ReadByte(f, p) == IF IsTag(f, p, {1108, 1008}) /\ p + 2 <= Len(f)
                  THEN [ok |-> TRUE, v |-> f[p + 2], p |-> p + 3] ELSE Bad
ReadInt(f, p) == IF IsTag(f, p, IntTags) /\ p + 5 <= Len(f) /\ Val(f, p + 2) >= 0
                 THEN [ok |-> TRUE, v |-> Val(f, p + 2), p |-> p + 6] ELSE Bad
ReadVec(f, p, ts, w) ==
   LET n == ReadInt(f, p) IN
   IF ~n.ok \/ ~IsTag(f, n.p, IF n.v = 0 THEN AnyTags ELSE ts) THEN Bad
   ELSE IF n.v > Len(f) \/ n.p + 1 + w * n.v > Len(f) THEN Bad
   ELSE [ok |-> TRUE, p |-> n.p + 2 + w * n.v,
         v |-> [i \in 1 .. n.v |-> IF w = 8 THEN SubSeq(f, n.p + 2 + 8 * (i - 1), n.p + 1 + 8 * i)
                                   ELSE Val(f, n.p + 2 + 4 * (i - 1))]]
ZeroV == <<0, 0, 0, 0, 0, 0, 0, 0>>
\* one matrix: shape, byte layout, and its entries as <<row, col, real, imag>> in file order
ReadMatrix(f, p0, cplx) ==
  LET fl == ReadByte(f, p0)
      r == IF fl.ok THEN ReadInt(f, fl.p) ELSE Bad
      c == IF r.ok THEN ReadInt(f, r.p) ELSE Bad
      re == IF c.ok THEN ReadVec(f, c.p, {2064}, 8) ELSE Bad
      im == IF ~re.ok THEN Bad ELSE IF (fl.v \div 2) % 2 = 1 THEN ReadVec(f, re.p, {2064}, 8)
            ELSE [ok |-> TRUE, p |-> re.p, v |-> [i \in 1 .. Len(re.v) |-> ZeroV]]
      ix == IF im.ok THEN ReadVec(f, im.p, IntTags, 4) ELSE Bad
      ip == IF ix.ok THEN ReadVec(f, ix.p, IntTags, 4) ELSE Bad IN
  IF ~ip.ok THEN Bad
  ELSE LET csr == fl.v % 2 = 1
           outer == IF csr THEN r.v ELSE c.v
           inner == IF csr THEN c.v ELSE r.v
           n == Len(re.v)
           end(k) == IF k = outer THEN n ELSE ip.v[k + 1] IN
       IF \/ (((fl.v \div 2) % 2 = 1) # cplx) \/ Len(im.v) # n \/ Len(ix.v) # n \/ Len(ip.v) # outer
          \/ (\E i \in 1 .. n : ix.v[i] < 0 \/ ix.v[i] >= inner)
          \/ (\E i \in 1 .. outer : ip.v[i] < 0 \/ ip.v[i] > end(i))
          \/ (outer = 0 /\ n > 0) \/ (outer > 0 /\ ip.v[1] # 0)
       THEN Bad
       ELSE [ok |-> TRUE, p |-> ip.p, csr |-> csr, r |-> r.v, c |-> c.v,
             t |-> [i \in 1 .. n |->
               LET k == CHOOSE k \in 1 .. outer : ip.v[k] < i /\ i <= end(k) IN
               IF csr THEN <<k - 1, ix.v[i], re.v[i], im.v[i]>> ELSE <<ix.v[i], k - 1, re.v[i], im.v[i]>>]]
Read(f, cplx) ==
  LET e == ReadMatrix(f, 1, cplx)
      b == IF e.ok THEN ReadMatrix(f, e.p, cplx) ELSE Bad IN
  IF b.ok /\ e.r = e.c /\ e.c = b.c THEN [ok |-> TRUE, e |-> e, b |-> b, end |-> b.p] ELSE Bad
\* writing: matrix m = [r, c, t] with t sorted by column (row) for the column (row) layout
EncVecI(v) == Tag(1032) \o I32(Len(v)) \o Tag(1032) \o FlattenSeq([i \in 1 .. Len(v) |-> I32(v[i])])
EncVecD(v) == Tag(1032) \o I32(Len(v)) \o Tag(2064) \o FlattenSeq(v)
EncMatrix(m, csr, cplx) ==
  LET outer == IF csr THEN m.r ELSE m.c
      o == IF csr THEN 1 ELSE 2
      n == Len(m.t) IN
  Tag(1108) \o <<(IF csr THEN 1 ELSE 0) + (IF cplx THEN 2 ELSE 0)>>
  \o Tag(1032) \o I32(m.r) \o Tag(1032) \o I32(m.c)
  \o EncVecD([i \in 1 .. n |-> m.t[i][3]]) \o (IF cplx THEN EncVecD([i \in 1 .. n |-> m.t[i][4]]) ELSE <<>>)
  \o EncVecI([i \in 1 .. n |-> m.t[i][3 - o]])
  \o EncVecI([k \in 1 .. outer |-> Cardinality({i \in 1 .. n : m.t[i][o] < k - 1})])
Enc(m, csr, cplx) == EncMatrix(m.e, csr, cplx) \o EncMatrix(m.b, csr, cplx)
Range2(s) == {s[i] : i \in 1 .. Len(s)}
SameMatrix(x, y) == x.r = y.r /\ x.c = y.c /\ Len(x.t) = Len(y.t) /\ Range2(x.t) = Range2(y.t)
=============================================================================
