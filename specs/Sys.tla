-------------------------------- MODULE Sys --------------------------------
(* The lazily built system: a list of states, a coefficient matrix (one    *)
(* column per basis vector) and a Hamiltonian over the basis vectors.      *)
(* Settings are remembered and applied when something is asked for.        *)
(*                                                                         *)
(* All numbers are exact Gaussian integers <<re, im>>. Only after a        *)
(* diagonalisation that mixes vectors (mode "diag") are B and H known in   *)
(* units of 1/1000. Matrices are records [r, c, e] with e a sequence of    *)
(* rows. c is the configuration: the pool of states (quantum numbers n, l, *)
(* 2j, 2m; n < 0: artificial), what the derived class supplies for each    *)
(* system (vectors, energies, couplings) and two interaction operators.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Z == <<0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
Abs2(a) == a[1] * a[1] + a[2] * a[2]
IAbs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN Z ELSE Add(SumTo(f, n - 1), f[n])
RECURSIVE ISum(_, _)
ISum(f, n) == IF n = 0 THEN 0 ELSE ISum(f, n - 1) + f[n]
Mat(r, cc, F(_, _)) == [r |-> r, c |-> cc, e |-> TLCEval([i \in 1 .. r |-> TLCEval([k \in 1 .. cc |-> F(i, k)])])]
Empty == [r |-> 0, c |-> 0, e |-> <<>>]
MMul(A, B) == Mat(A.r, B.c, LAMBDA i, k : SumTo([j \in 1 .. A.c |-> Mul(A.e[i][j], B.e[j][k])], A.c))
Dag(A) == Mat(A.c, A.r, LAMBDA i, k : Conj(A.e[k][i]))
MAdd(A, B, f) == Mat(A.r, A.c, LAMBDA i, k : Add(A.e[i][k], <<f * B.e[i][k][1], f * B.e[i][k][2]>>))
Rows(A, q) == Mat(Len(q), A.c, LAMBDA i, k : A.e[q[i]][k])
Cols(A, q) == Mat(A.r, Len(q), LAMBDA i, k : A.e[i][q[k]])
Sub(A, q) == Mat(Len(q), Len(q), LAMBDA i, k : A.e[q[i]][q[k]])
Sandwich(B, A) == MMul(Dag(B), MMul(A, B))
Unit(n) == Mat(n, n, LAMBDA i, k : IF i = k THEN <<1, 0>> ELSE Z)
Diagonal(A) == \A i \in 1 .. A.r : \A k \in 1 .. A.c : i # k => A.e[i][k] = Z
Hermitian(A) == A.r = A.c /\ \A i, k \in 1 .. A.r : A.e[i][k] = Conj(A.e[k][i])
Numbers(n) == [i \in 1 .. n |-> i]
Range(q) == {q[i] : i \in 1 .. Len(q)}
Where(q, x) == IF x \in Range(q) THEN CHOOSE i \in 1 .. Len(q) : q[i] = x ELSE 0
Times1000(A) == Mat(A.r, A.c, LAMBDA i, k : <<1000 * A.e[i][k][1], 1000 * A.e[i][k][2]>>)

New(d, ms) == [d |-> d, built |-> FALSE, dead |-> FALSE, st |-> <<>>, B |-> Empty, H |-> Empty, hasU |-> FALSE, UB |-> Empty, UH |-> Empty,
            hasV |-> FALSE, V |-> Empty, hasW |-> FALSE, W |-> Empty, cont |-> FALSE, req |-> FALSE, p |-> 0, q |-> 0,
            rn |-> {}, rl |-> {}, rj |-> {}, rm |-> {}, lo |-> 99, hi |-> 99, adds |-> {}, thr |-> 50, ms |-> ms,
            mode |-> "exact", trans |-> FALSE]
Scale(s) == IF s.mode = "diag" THEN 1000 ELSE 1
BMilli(s) == IF s.mode = "diag" THEN s.B ELSE Times1000(s.B)
HMilli(s) == IF s.mode = "diag" THEN s.H ELSE Times1000(s.H)
Artificial(c, id) == id > Len(c.pool) \/ c.pool[id][1] < 0
QRestricted(s) == s.rn # {} \/ s.rl # {} \/ s.rj # {} \/ s.rm # {}
ERestricted(s) == s.lo # 99 \/ s.hi # 99
Pending(s) == QRestricted(s) \/ ERestricted(s)
In(x, S) == S = {} \/ x \in S
StateOK(c, s, id) == Artificial(c, id) \/ (/\ In(c.pool[id][1], s.rn) /\ In(c.pool[id][2], s.rl)
                                           /\ In(c.pool[id][3], s.rj) /\ In(c.pool[id][4], s.rm))
EnergyOK(s, e, sc) == (s.lo = 99 \/ e > s.lo * sc) /\ (s.hi = 99 \/ e < s.hi * sc)
EnergyUnsure(s, e) == s.mode = "diag" /\ ((s.lo # 99 /\ IAbs(e - s.lo * 1000) <= 2) \/ (s.hi # 99 /\ IAbs(e - s.hi * 1000) <= 2))
ColNorm(B, k) == ISum([i \in 1 .. B.r |-> Abs2(B.e[i][k])], B.r)
RowNorm(B, i) == ISum([k \in 1 .. B.c |-> Abs2(B.e[i][k])], B.c)
NormOK(s, x) == IF s.mode = "diag" THEN x > s.thr * 1000 ELSE x * 1000 > s.thr
NormUnsure(s, x) == s.mode = "diag" /\ IAbs(x - s.thr * 1000) < 20000

(*** building the basis ****************************************************)
OfVec(v) == [i \in 1 .. Len(v) |-> v[i][1]]
RECURSIVE NewOnes(_, _)
NewOnes(st, q) == IF q = <<>> THEN st
                  ELSE NewOnes(IF Head(q) \in Range(st) THEN st ELSE Append(st, Head(q)), Tail(q))
RECURSIVE StatesOf(_, _, _)
StatesOf(d, ks, st) == IF ks = <<>> THEN st ELSE StatesOf(d, Tail(ks), NewOnes(st, OfVec(d.vecs[Head(ks)])))
Coef(v, id) == SumTo([i \in 1 .. Len(v) |-> IF v[i][1] = id THEN <<v[i][2], v[i][3]>> ELSE Z], Len(v))
OffSum(d, a, b) == SumTo([i \in 1 .. Len(d.off) |-> IF d.off[i][1] = a /\ d.off[i][2] = b THEN <<d.off[i][3], d.off[i][4]>> ELSE Z], Len(d.off))
Initial(c, s) ==
  LET d == c.sys[s.d]
      ks == SelectSeq(Numbers(Len(d.vecs)), LAMBDA k : EnergyOK(s, d.en[k], 1) /\ \A i \in 1 .. Len(d.vecs[k]) : StateOK(c, s, d.vecs[k][i][1]))
      st0 == StatesOf(d, ks, <<>>)
      ad == SelectSeq(c.order, LAMBDA id : id \in s.adds)
      st == st0 \o ad
      n == Len(ks) + Len(ad)
      B == Mat(Len(st), n, LAMBDA i, k : IF k <= Len(ks) THEN Coef(d.vecs[ks[k]], st[i]) ELSE IF st[i] = ad[k - Len(ks)] THEN <<1, 0>> ELSE Z)
      H == Mat(n, n, LAMBDA i, k : Add(IF i # k THEN Z ELSE IF k <= Len(ks) THEN <<d.en[ks[k]], 0>> ELSE <<7, 0>>,
                                       IF i <= Len(ks) /\ k <= Len(ks) THEN OffSum(d, ks[i], ks[k]) ELSE Z)) IN
  [ok |-> s.adds \cap Range(st0) = {} /\ Len(st) > 0 /\ n > 0, s |-> [s EXCEPT !.st = st, !.B = B, !.H = H, !.built = TRUE]]
Forgotten(s) == [s EXCEPT !.rn = {}, !.rl = {}, !.rj = {}, !.rm = {}, !.lo = 99, !.hi = 99, !.adds = {}]

(*** changing it ***********************************************************)
DropRows(s, q) == [s EXCEPT !.st = [i \in 1 .. Len(q) |-> s.st[q[i]]], !.B = Rows(s.B, q), !.UB = IF s.hasU THEN Rows(s.UB, q) ELSE s.UB]
\* the caches follow the chosen columns unless the columns no longer are the unperturbed ones
Caches(s) == IF s.trans THEN [s EXCEPT !.hasU = FALSE, !.hasV = FALSE, !.hasW = FALSE] ELSE s
Pick(s0, q) == LET s == Caches(s0) IN
  [s EXCEPT !.B = Cols(s.B, q), !.H = Sub(s.H, q), !.UB = IF s.hasU THEN Cols(s.UB, q) ELSE s.UB, !.UH = IF s.hasU THEN Sub(s.UH, q) ELSE s.UH,
            !.V = IF s.hasV THEN Sub(s.V, q) ELSE s.V, !.W = IF s.hasW THEN Sub(s.W, q) ELSE s.W]
\* unsure: whether vectors so close to a limit that the recorded digits do not tell are kept
Update(c, s0, unsure) ==
  LET a == IF QRestricted(s0) THEN DropRows(s0, SelectSeq(Numbers(Len(s0.st)), LAMBDA i : StateOK(c, s0, s0.st[i]))) ELSE s0
      Keep(k) == LET e == a.H.e[k][k][1]
                     x == ColNorm(a.B, k) IN
                 IF EnergyUnsure(a, e) \/ NormUnsure(a, x) THEN unsure ELSE EnergyOK(a, e, Scale(a)) /\ NormOK(a, x)
      ks == SelectSeq(Numbers(a.B.c), Keep)
      b == IF Len(ks) < a.B.c THEN Pick(a, ks) ELSE a
      is == SelectSeq(Numbers(Len(b.st)), LAMBDA i : LET x == RowNorm(b.B, i) IN IF NormUnsure(b, x) THEN unsure ELSE NormOK(b, x)) IN
  IF Pending(s0) THEN DropRows(b, is) ELSE s0
\* [ok, s]: after making sure that the basis exists and restrictions are applied
BuildB(c, s, unsure) ==
  IF s.dead THEN [ok |-> FALSE, s |-> s]
  ELSE IF ~s.built THEN LET r == Initial(c, s) IN [ok |-> r.ok, s |-> IF r.ok THEN Forgotten(r.s) ELSE s]
  ELSE LET u == Update(c, s, unsure) IN
       IF Len(u.st) = 0 \/ u.B.c = 0 THEN [ok |-> FALSE, s |-> [u EXCEPT !.dead = TRUE]] ELSE [ok |-> TRUE, s |-> Forgotten(u)]

OpSum(op, a, b) == SumTo([i \in 1 .. Len(op) |-> IF op[i][1] = a /\ op[i][2] = b THEN <<op[i][3], op[i][4]>> ELSE Z], Len(op))
Operator(s, op) == Sandwich(s.B, Mat(Len(s.st), Len(s.st), LAMBDA i, k : OpSum(op, s.st[i], s.st[k])))
Interact(c, s0) ==
  LET s == IF s0.p # 0 /\ ~s0.hasV THEN [s0 EXCEPT !.hasV = TRUE, !.V = Operator(s0, c.V)] ELSE s0 IN
  IF s.q # 0 /\ ~s.hasW THEN [s EXCEPT !.hasW = TRUE, !.W = Operator(s, c.W)] ELSE s
BuildH(c, s0, unsure) ==
  LET r == BuildB(c, s0, unsure) IN
  IF ~r.ok \/ ~r.s.req THEN r
  ELSE LET s == Interact(c, IF r.s.ms THEN r.s ELSE [r.s EXCEPT !.hasU = TRUE, !.UB = r.s.B, !.UH = r.s.H, !.trans = FALSE])
           h == IF s.p # 0 THEN MAdd(s.H, s.V, s.p) ELSE s.H
           g == IF s.q # 0 THEN MAdd(h, s.W, s.q) ELSE h IN
       [ok |-> TRUE, s |-> [s EXCEPT !.H = g, !.cont = TRUE, !.req = FALSE, !.hasV = IF s.ms THEN FALSE ELSE @, !.hasW = IF s.ms THEN FALSE ELSE @]]
BuildI(c, s0, unsure) == LET r == BuildB(c, s0, unsure) IN IF r.ok THEN [r EXCEPT !.s = Interact(c, r.s)] ELSE r

(*** parameters ************************************************************)
ParamOK(s) == ~s.cont \/ s.hasU
Param(s) == IF s.cont THEN [s EXCEPT !.B = s.UB, !.H = s.UH, !.hasU = FALSE, !.cont = FALSE, !.trans = FALSE, !.req = TRUE, !.mode = "exact"]
            ELSE [s EXCEPT !.req = TRUE]

(*** editing ***************************************************************)
Constrain(s, q) == LET t == Pick(s, [i \in 1 .. Len(q) |-> q[i] + 1]) IN IF Len(q) = 0 THEN [t EXCEPT !.dead = TRUE] ELSE t
ConstrainOK(s, q) == Cardinality(Range(q)) = Len(q) /\ \A i \in 1 .. Len(q) : q[i] < s.B.c
Entry(s, i, k) == MMul(Rows(s.B, <<i>>), MMul(s.H, Dag(Rows(s.B, <<k>>)))).e[1][1]
AddEntry(s, i, k, v) == LET n == Len(s.st) IN
  [s EXCEPT !.H = MAdd(s.H, Sandwich(s.B, Mat(n, n, LAMBDA a, b : IF a = i /\ b = k THEN v ELSE IF a = k /\ b = i THEN Conj(v) ELSE Z)), 1)]
SetEntry(s, i, k, v) == LET o == Entry(s, i, k) IN AddEntry(s, i, k, <<v[1] - o[1], v[2] - o[2]>>)
Canon(s) == [s EXCEPT !.H = MMul(s.B, MMul(s.H, Dag(s.B))), !.B = MMul(s.B, Dag(s.B)), !.trans = TRUE]
\* the rotation supplied by the derived class: m -> -m with sign -1 from negative m
Refl(c, id) == IF Artificial(c, id) THEN id
               ELSE LET S == {i \in 1 .. Len(c.pool) : c.pool[i] = <<c.pool[id][1], c.pool[id][2], c.pool[id][3], -c.pool[id][4]>>} IN
                    IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Sign(c, id) == IF ~Artificial(c, id) /\ c.pool[id][4] < 0 THEN -1 ELSE 1
Rotator(c, s) == Mat(Len(s.st), Len(s.st), LAMBDA i, k : IF Refl(c, s.st[k]) = s.st[i] THEN <<Sign(c, s.st[k]), 0>> ELSE Z)
Rotate(c, s) ==
  LET R == Rotator(c, s)
      B0 == IF s.hasU THEN s.UB ELSE s.B
      B1 == MMul(R, B0)
      T(V) == Sandwich(B1, MMul(B0, MMul(V, Dag(B0)))) IN
  [s EXCEPT !.B = MMul(R, s.B), !.UB = IF s.hasU THEN B1 ELSE s.UB, !.V = IF s.hasV THEN T(s.V) ELSE s.V, !.W = IF s.hasW THEN T(s.W) ELSE s.W]
\* systems s and o combined
Orthogonal(s, o) == \A a \in 1 .. s.B.c : \A b \in 1 .. o.B.c :
   SumTo([i \in 1 .. Len(s.st) |-> LET j == Where(o.st, s.st[i]) IN IF j = 0 THEN Z ELSE Mul(Conj(s.B.e[i][a]), o.B.e[j][b])], Len(s.st)) = Z
JoinOK(s, o) == /\ s.ms = o.ms /\ s.cont = o.cont /\ s.req = o.req /\ s.hasU = o.hasU /\ s.p = o.p /\ s.q = o.q /\ Orthogonal(s, o)
Beside(st, so, A, D) == Mat(Len(st), A.c + D.c, LAMBDA i, k : IF k <= A.c THEN (IF i <= A.r THEN A.e[i][k] ELSE Z)
                             ELSE LET j == Where(so, st[i]) IN IF j = 0 THEN Z ELSE D.e[j][k - A.c])
Blocks(A, D) == Mat(A.r + D.r, A.c + D.c, LAMBDA i, k : IF i <= A.r /\ k <= A.c THEN A.e[i][k] ELSE IF i > A.r /\ k > A.c THEN D.e[i - A.r][k - A.c] ELSE Z)
Join(s, o) == LET st == NewOnes(s.st, o.st) IN
  [s EXCEPT !.st = st, !.B = Beside(st, o.st, s.B, o.B), !.H = Blocks(s.H, o.H), !.UB = IF s.hasU THEN Beside(st, o.st, s.UB, o.UB) ELSE s.UB,
            !.UH = IF s.hasU THEN Blocks(s.UH, o.UH) ELSE s.UH, !.hasV = FALSE, !.hasW = FALSE, !.trans = s.trans \/ o.trans]
\* the states replaced by one artificial state (ids) for each vector
Unitarize(s, ids) == [s EXCEPT !.st = ids, !.B = IF s.mode = "diag" THEN Times1000(Unit(s.B.c)) ELSE Unit(s.B.c), !.hasU = FALSE, !.hasV = FALSE, !.hasW = FALSE]
\* every vector replaced by its dominating state
Dominating(s, k) == SelectSeq(Numbers(s.B.r), LAMBDA i : IF s.mode = "diag" THEN Abs2(s.B.e[i][k]) > 500000 ELSE 2 * Abs2(s.B.e[i][k]) > 1)
ForgetOK(s) == \A k \in 1 .. s.B.c : Dominating(s, k) # <<>>
Forget(s) == [s EXCEPT !.B = Mat(s.B.r, s.B.c, LAMBDA i, k : IF Dominating(s, k)[1] = i THEN <<Scale(s), 0>> ELSE Z)]

(*** diagonalisation: a relation between before (exact) and after (1/1000)  *)
Near(a, b, t) == IAbs(a[1] - b[1]) <= t /\ IAbs(a[2] - b[2]) <= t
MNear(A, D, t) == A.r = D.r /\ A.c = D.c /\ \A i \in 1 .. A.r : \A k \in 1 .. A.c : Near(A.e[i][k], D.e[i][k], t)
Mul3(a, b) == <<(a[1] * b[1] - a[2] * b[2]) \div 1000, (a[1] * b[2] + a[2] * b[1]) \div 1000>>
MMul3(A, D) == Mat(A.r, D.c, LAMBDA i, k : SumTo([j \in 1 .. A.c |-> Mul3(A.e[i][j], D.e[j][k])], A.c))
Mul4(a, b) == LET x == <<a[1] \div 10, a[2] \div 10>> IN <<(x[1] * b[1] - x[2] * b[2]) \div 100, (x[1] * b[2] + x[2] * b[1]) \div 100>>
MMul4(A, D) == Mat(A.r, D.c, LAMBDA i, k : SumTo([j \in 1 .. A.c |-> Mul4(A.e[i][j], D.e[j][k])], A.c))
Diagonalised(s, B, H) ==
  /\ Diagonal(H) /\ H.r = s.H.r /\ B.r = s.B.r /\ B.c = s.B.c
  /\ \A k \in 1 .. H.r : H.e[k][k][2] = 0
  /\ MNear(MMul3(B, Dag(B)), Times1000(MMul(s.B, Dag(s.B))), 40)
  /\ MNear(MMul4(MMul3(B, H), Dag(B)), Times1000(MMul(s.B, MMul(s.H, Dag(s.B)))), 400)

(*** questions *************************************************************)
OverlapM(s, is) == [k \in 1 .. s.B.c |-> (LET x == ISum([a \in 1 .. Len(is) |-> Abs2(s.B.e[is[a]][k])], Len(is)) IN
                                          IF s.mode = "diag" THEN x \div 1000 ELSE 1000 * x)]
Present(s, ids) == SelectSeq([i \in 1 .. Len(ids) |-> Where(s.st, ids[i])], LAMBDA i : i > 0)
Matches(c, id, w) == ~Artificial(c, id) /\ \A i \in 1 .. 4 : w[i] = 99 \/ c.pool[id][i] = w[i]
WildRows(c, s, w) == SelectSeq(Numbers(Len(s.st)), LAMBDA i : Matches(c, s.st[i], w))
MaxRows(s, k) == {i \in 1 .. s.B.r : \A j \in 1 .. s.B.r : Abs2(s.B.e[i][k]) >= Abs2(s.B.e[j][k])}
\* strengths of overlaps between the vectors of two systems, |<a|b>|^2
Strength(s, o) == Mat(s.B.c, o.B.c, LAMBDA a, b :
   Abs2(SumTo([i \in 1 .. Len(s.st) |-> LET j == Where(o.st, s.st[i]) IN IF j = 0 THEN Z ELSE Mul(Conj(s.B.e[i][a]), o.B.e[j][b])], Len(s.st))))
\* from, to: 0-based; t in 1/1000
Connected(s, o, t, from, to) ==
  LET G == Strength(s, o).e IN
  /\ Len(from) = Len(to)
  /\ \A i \in 1 .. Len(from) :
       /\ from[i] < s.B.c /\ to[i] < o.B.c
       /\ \A k \in 1 .. i - 1 : from[k] # from[i] /\ to[k] # to[i]
       /\ LET g == G[from[i] + 1][to[i] + 1] IN
          /\ g * 1000 > t
          /\ \A b \in 1 .. o.B.c : G[from[i] + 1][b] <= g
          /\ \A a \in 1 .. s.B.c : G[a][to[i] + 1] <= g
  /\ \A a \in 1 .. s.B.c : \A b \in 1 .. o.B.c :
       (G[a][b] * 1000 > t /\ (\A k \in 1 .. o.B.c : k # b => G[a][k] < G[a][b]) /\ (\A k \in 1 .. s.B.c : k # a => G[k][b] < G[a][b]))
          => \E i \in 1 .. Len(from) : from[i] + 1 = a /\ to[i] + 1 = b
\* index (0-based) of a vector with the largest part of state row i
VecOf(s, i, k) == k >= 0 /\ k < s.B.c /\ \A b \in 1 .. s.B.c : Abs2(s.B.e[i][b]) <= Abs2(s.B.e[i][k + 1])
\* as many vectors as states, together having the largest part in these states, each used once
Total(s, is, k) == ISum([a \in 1 .. Len(is) |-> Abs2(s.B.e[is[a]][k])], Len(is))
VecsOf(s, is, ks) ==
  /\ Len(ks) = Len(is) /\ Cardinality(Range(ks)) = Len(ks) /\ \A a \in 1 .. Len(ks) : ks[a] >= 0 /\ ks[a] < s.B.c
  /\ \A a \in 1 .. Len(ks) : \A b \in (1 .. s.B.c) \ {ks[i] + 1 : i \in 1 .. Len(ks)} : Total(s, is, b) <= Total(s, is, ks[a] + 1)
  /\ \A a \in 1 .. Len(ks) : Abs2(s.B.e[is[a]][ks[a] + 1]) > 0

(*** what an operation k with arguments a does to system s, o being the    *)
(*** other one. ok: not refused; skip: beyond this model                   *)
Max(A) == LET S == {IAbs(A.e[i][k][j]) : i \in 1 .. A.r, k \in 1 .. A.c, j \in 1 .. 2} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Big(s) == s.mode = "exact" /\ (Max(s.B) > 8 \/ Max(s.H) > 500 \/ (s.hasV /\ Max(s.V) > 2000) \/ (s.hasW /\ Max(s.W) > 2000))
Span(lo, hi, step) == {lo + step * i : i \in 0 .. ((hi - lo) \div step)}
SameColumns(B) == \E a, b \in 1 .. B.c : a # b /\ \A i \in 1 .. B.r : B.e[i][a] = B.e[i][b]
E4(ok, s, o, skip) == [ok |-> ok, s |-> s, o |-> o, skip |-> skip]
Settings == {"N", "L", "J", "M", "NR", "LR", "JR", "MR", "Energy", "Norm", "AddStates", "P", "Q", "Sym"}
BasisQueries == {"BuildB", "States", "MultiIndex", "NumStates", "NumVec", "Basis", "Overlap", "OverlapRot", "Wild", "OverlapIdx", "Main", "StateIdx", "VecIdx"}
Set(s, k, a) ==
  CASE k = "N" -> [s EXCEPT !.rn = Range(a)] [] k = "L" -> [s EXCEPT !.rl = Range(a)]
    [] k = "J" -> [s EXCEPT !.rj = Range(a)] [] k = "M" -> [s EXCEPT !.rm = Range(a)]
    [] k = "NR" -> [s EXCEPT !.rn = Span(a[1], a[2], 1)] [] k = "LR" -> [s EXCEPT !.rl = Span(a[1], a[2], 1)]
    [] k = "JR" -> [s EXCEPT !.rj = Span(a[1], a[2], 2)] [] k = "MR" -> [s EXCEPT !.rm = Span(a[1], a[2], 2)]
    [] k = "Energy" -> [s EXCEPT !.lo = a[1], !.hi = a[2]] [] k = "Norm" -> [s EXCEPT !.thr = a]
    [] k = "AddStates" -> [s EXCEPT !.adds = @ \cup Range(a)]
    [] k = "P" -> [Param(s) EXCEPT !.p = a] [] k = "Q" -> [Param(s) EXCEPT !.q = a] [] OTHER -> s
SetOK(s, k) == CASE k \in {"AddStates", "Sym"} -> ~s.built [] k \in {"P", "Q"} -> ParamOK(s) [] OTHER -> TRUE
Effect(c, s, o, k, a, u) ==
  LET b == BuildB(c, s, u)
      h == BuildH(c, s, u)
      Has(i) == i \in Range(h.s.st) IN
  CASE k \in Settings ->
         E4(SetOK(s, k), IF SetOK(s, k) THEN Set(s, k, a) ELSE s, o,
            (s.dead /\ k \in {"AddStates", "P", "Q", "Sym"}) \/ (k \in {"P", "Q"} /\ s.mode = "diag" /\ ~s.cont))
    [] k \in BasisQueries -> E4(b.ok, b.s, o, FALSE)
    [] k = "BuildI" -> (LET r == BuildI(c, s, u) IN E4(r.ok, r.s, o, s.mode = "diag" /\ ~s.hasU))
    [] k \in {"BuildH", "Ham", "Entry"} -> E4(h.ok, h.s, o, FALSE)
    [] k = "Connect" -> (LET bo == BuildB(c, o, u) IN IF b.ok THEN E4(bo.ok, b.s, bo.s, FALSE) ELSE E4(FALSE, b.s, o, FALSE))
    [] k \in {"Copy", "Assign"} -> E4(TRUE, s, s, FALSE)
    [] ~h.ok /\ k # "Join" -> E4(FALSE, h.s, o, FALSE)
    [] k = "Constrain" -> E4(ConstrainOK(h.s, a), IF ConstrainOK(h.s, a) THEN Constrain(h.s, a) ELSE h.s, o, FALSE)
    [] k = "Join" -> (LET bo == BuildB(c, o, u) IN
                      IF ~b.ok THEN E4(FALSE, b.s, o, FALSE) ELSE IF ~bo.ok THEN E4(FALSE, b.s, bo.s, FALSE)
                      ELSE IF b.s.mode = "diag" \/ bo.s.mode = "diag" THEN E4(FALSE, b.s, bo.s, TRUE)
                      ELSE IF JoinOK(b.s, bo.s) THEN E4(TRUE, Join(b.s, bo.s), bo.s, FALSE) ELSE E4(FALSE, b.s, bo.s, FALSE))
    [] k \in {"SetEntry", "AddEntry"} ->
         (LET v == <<a[3], a[4]>>
              i == Where(h.s.st, a[1])
              j == Where(h.s.st, a[2]) IN
          IF i = 0 \/ j = 0 THEN E4(FALSE, h.s, o, FALSE) ELSE IF h.s.mode = "diag" THEN E4(FALSE, h.s, o, TRUE)
          ELSE E4(TRUE, IF k = "SetEntry" THEN SetEntry(h.s, i, j, v) ELSE AddEntry(h.s, i, j, v), o, FALSE))
    [] k = "Canon" -> E4(TRUE, Canon(h.s), o, h.s.mode = "diag")
    [] k = "Rotate" -> E4(TRUE, Rotate(c, h.s), o, h.s.mode = "diag" /\ ~h.s.hasU /\ (h.s.hasV \/ h.s.hasW))
    [] k = "Diag" -> E4(TRUE, h.s, o, FALSE)
    [] k = "Forget" -> (IF h.s.mode = "diag" \/ ~Diagonal(h.s.H) THEN E4(TRUE, h.s, o, TRUE)
                        ELSE E4(ForgetOK(h.s), IF ForgetOK(h.s) THEN Forget(h.s) ELSE h.s, o, FALSE))
    [] k = "Unit" -> E4(TRUE, h.s, o, SameColumns(h.s.B))
=============================================================================
