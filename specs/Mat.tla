-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Hamiltonian matrices: entries (nb x nb), basis vectors as columns of    *)
(* basis (nc coordinates x nb vectors), and values added but not yet       *)
(* compressed into the matrices. Numbers are Gaussian integers <<re, im>>. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Z == <<0, 0>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Conj(x) == <<x[1], -x[2]>>
IAbs(x) == IF x < 0 THEN -x ELSE x
Norm2(x) == x[1] * x[1] + x[2] * x[2]
RECURSIVE SumC(_, _)
SumC(f(_), n) == IF n = 0 THEN Z ELSE CAdd(SumC(f, n - 1), f(n))
RECURSIVE SumI(_, _)
SumI(f(_), n) == IF n = 0 THEN 0 ELSE SumI(f, n - 1) + f(n)
\* plain matrices as sequences of rows, r x c
MMul(A, B, r, k, c) == TLCEval([i \in 1 .. r |-> TLCEval([j \in 1 .. c |-> SumC(LAMBDA m : CMul(A[i][m], B[m][j]), k)])])
Adj(A, r, c) == TLCEval([j \in 1 .. c |-> TLCEval([i \in 1 .. r |-> Conj(A[i][j])])])
Dense(trip, r, c) == TLCEval([i \in 1 .. r |-> TLCEval([j \in 1 .. c |->
   SumC(LAMBDA k : IF trip[k].r = i - 1 /\ trip[k].c = j - 1 THEN trip[k].v ELSE Z, Len(trip))])])

Empty == [nb |-> 0, nc |-> 0, e |-> <<>>, b |-> <<>>, pe |-> <<>>, pb |-> <<>>]
AddEntry(m, t) == [m EXCEPT !.pe = Append(@, t)]
AddBasis(m, t) == [m EXCEPT !.pb = Append(@, t)]
CanCompress(m, nb, nc) == /\ \A i \in 1 .. Len(m.pe) : m.pe[i].r < nb /\ m.pe[i].c < nb
                          /\ \A i \in 1 .. Len(m.pb) : m.pb[i].r < nc /\ m.pb[i].c < nb
Compress(m, nb, nc) == [nb |-> nb, nc |-> nc, e |-> Dense(m.pe, nb, nb), b |-> Dense(m.pb, nc, nb),
                        pe |-> <<>>, pb |-> <<>>]
Made(nb, nc, e, b) == [nb |-> nb, nc |-> nc, e |-> e, b |-> b, pe |-> <<>>, pb |-> <<>>]
Plus(x, y) == [x EXCEPT !.e = [i \in 1 .. x.nb |-> [j \in 1 .. x.nb |-> CAdd(x.e[i][j], y.e[i][j])]]]
Minus(x, y) == [x EXCEPT !.e = [i \in 1 .. x.nb |-> [j \in 1 .. x.nb |-> CSub(x.e[i][j], y.e[i][j])]]]
Times(x, s) == [x EXCEPT !.e = [i \in 1 .. x.nb |-> [j \in 1 .. x.nb |-> CMul(x.e[i][j], s)]]]
AbsOk(x) == \A i, j \in 1 .. x.nb : x.e[i][j][1] = 0 \/ x.e[i][j][2] = 0
Abs(x) == Made(x.nb, x.nc, [i \in 1 .. x.nb |-> [j \in 1 .. x.nb |->
              <<IAbs(x.e[i][j][1]) + IAbs(x.e[i][j][2]), 0>>]], x.b)
\* the basis vectors number idx[1], idx[2], .. (from 0), in that order
Pick(x, idx) == [x EXCEPT !.nb = Len(idx),
    !.e = [i \in 1 .. Len(idx) |-> [j \in 1 .. Len(idx) |-> x.e[idx[i] + 1][idx[j] + 1]]],
    !.b = [i \in 1 .. x.nc |-> [j \in 1 .. Len(idx) |-> x.b[i][idx[j] + 1]]]]
Block(x, idx) == [Pick(x, idx) EXCEPT !.pe = <<>>, !.pb = <<>>]
Numbers(n) == [i \in 1 .. n |-> i - 1]
Where(n, P(_)) == SelectSeq(Numbers(n), P)
Cutoff(x, c) == Pick(x, Where(x.nb, LAMBDA i : Norm2(x.e[i + 1][i + 1]) < c * c))
\* weight of a vector on the marked coordinates, of a coordinate in all vectors
Weight(x, col, mask) == SumI(LAMBDA r : IF mask[r] THEN Norm2(x.b[r][col]) ELSE 0, x.nc)
RemoveVectors(x, mask) == Pick(x, Where(x.nb, LAMBDA i : Weight(x, i + 1, mask) > 0))
All(n) == [i \in 1 .. n |-> TRUE]
Found(x, mask) == [r \in 1 .. x.nc |-> mask[r] \/ SumI(LAMBDA k : Norm2(x.b[r][k]), x.nb) > 0]
RemoveStates(x, mask) ==
   LET keep == Where(x.nc, LAMBDA r : mask[r + 1]) IN
   [x EXCEPT !.nc = Len(keep), !.b = [i \in 1 .. Len(keep) |-> x.b[keep[i] + 1]]]
\* new basis vectors as columns of nbas (nc x k): T = old basis' * new, entries = T' E T
ChangeBasis(x, nbas, k) ==
   LET T == MMul(Adj(x.b, x.nc, x.nb), nbas, x.nb, x.nc, k)
       H == MMul(Adj(T, x.nb, k), MMul(x.e, T, x.nb, x.nb, k), k, x.nb, k)
   IN Made(k, x.nc, H, nbas)
\* what reading back a stored matrix gives
Stored(x) == Made(x.nb, x.nc, x.e, x.b)
Hermitian(x) == \A i, j \in 1 .. x.nb : x.e[i][j] = Conj(x.e[j][i])
MaxAbs(x) == \A i \in 1 .. x.nb : (\A j \in 1 .. x.nb : Norm2(x.e[i][j]) <= 1000000)
=============================================================================
