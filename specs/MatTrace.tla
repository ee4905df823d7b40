------------------------------ MODULE MatTrace ------------------------------
(* Operations carried out on real Hamiltonian matrices; after each one all *)
(* slots are read.                                                         *)
EXTENDS TraceBase
VARIABLE sl
M == INSTANCE Mat
TInit == TrackInit /\ l = 1 /\ sl = [i \in 1 .. 3 |-> M!Empty]
New == IsEvent("New") /\ sl' = [i \in 1 .. 3 |-> M!Empty]
SetOf(x) == {x[i] : i \in 1 .. Len(x)}
Same(m, o) == o.nb = m.nb /\ o.nc = m.nc /\ o.e = m.e /\ o.b = m.b
AllRead(all) == \A i \in 1 .. 3 : Same(sl'[i], all[i])
Result(e) ==
  LET d == e.d
      a == sl[e.a]
      b == sl[e.b]
      x == e.x IN
  CASE e.o = "Fill" -> M!Compress([M!Empty EXCEPT !.pe = x.te, !.pb = x.tb], x.nb, x.nc)
    [] e.o = "AddE" -> M!AddEntry(sl[d], x)
    [] e.o = "AddB" -> M!AddBasis(sl[d], x)
    [] e.o = "Comp" -> M!Compress(sl[d], x.nb, x.nc)
    [] e.o \in {"Plus", "Inc"} -> M!Plus(a, b)
    [] e.o \in {"Minus", "Dec"} -> M!Minus(a, b)
    [] e.o \in {"TimesL", "TimesR", "TimesD"} -> M!Times(a, x)
    [] e.o \in {"Copy", "Sub"} -> a
    [] e.o = "Abs" -> M!Abs(a)
    [] e.o = "Store" -> M!Stored(a)
    [] e.o = "Block" -> M!Block(a, x)
    [] e.o = "Change" -> M!ChangeBasis(a, x.m, x.k)
    [] e.o = "Cutoff" -> M!Cutoff(a, x)
    [] e.o = "RmVec" -> M!RemoveVectors(a, x)
    [] e.o = "RmVec0" -> M!RemoveVectors(a, M!All(a.nc))
    [] e.o = "RmSt" -> M!RemoveStates(a, x)
    [] e.o = "Find" -> a
Op == /\ IsEvent("Op")
      /\ sl' = [sl EXCEPT ![Ev.d] = Result(Ev)]
      /\ AllRead(Ev.all)
      /\ Ev.o = "Find" => Ev.found = M!Found(sl[Ev.a], Ev.x)
\* Diagonalisation of the integer matrix h in the (unitary) basis p, results in units of 1/1000:
\* ascending real energies, orthonormal vectors, and h v = energy v for each.
Near(x, y, t) == M!IAbs(x[1] - y[1]) <= t /\ M!IAbs(x[2] - y[2]) <= t
Diag == /\ IsEvent("Diag")
        /\ LET n == Ev.n
               D == Ev.diag
               V == M!MMul(M!Adj(Ev.p, n, n), Ev.basis, n, n, n)
               HV == M!MMul(Ev.h, V, n, n, n) IN
           /\ Len(D) = n /\ Ev.nb = n /\ Ev.nc = n /\ Ev.offdiag = 0
           /\ \A i \in 1 .. n - 1 : D[i] <= D[i + 1] + 2
           /\ \A i, j \in 1 .. n :
                /\ Near(M!SumC(LAMBDA k : M!CMul(M!Conj(V[k][i]), V[k][j]), n),
                        IF i = j THEN <<1000000, 0>> ELSE <<0, 0>>, 8000)
                /\ Near(<<1000 * HV[i][j][1], 1000 * HV[i][j][2]>>,
                        <<D[j] * V[i][j][1], D[j] * V[i][j][2]>>, 40000)
        /\ UNCHANGED sl
TNext == New \/ Op \/ Diag
TSpec == TInit /\ [][TNext]_<<l, sl>>
=============================================================================
