------------------------------ MODULE TwoTrace ------------------------------
(* Histories of a real SystemTwo: whenever the Hamiltonian is asked for it *)
(* is the operator that module Two gives for the geometry in force, taken  *)
(* between the basis vectors that the system reports, or the question is   *)
(* refused because the geometry cannot be handled, which changes nothing.  *)
EXTENDS TraceBase
S == INSTANCE Two
\* as in OneTrace: gone, st, mixed; rough: the vector was computed from an angle
VARIABLES c, set, mixed, gone, st, rough, nv
vars == <<l, c, set, mixed, gone, st, rough, nv>>
TInit == TrackInit /\ l = 1 /\ c = <<>> /\ set = <<>> /\ mixed = 0 /\ gone = FALSE /\ st = <<>> /\ rough = {} /\ nv = <<>>
Start == IsEvent("Start") /\ c' = Ev.cfg /\ set' = <<S!Far, S!Far>> /\ mixed' = 0 /\ gone' = FALSE /\ st' = <<"new", "new">> /\ rough' = {} /\ nv' = [i \in 1 .. 2 |-> Ev.cfg.sys[i].nv]
RowSum(O, n, i) == S!SumI(LAMBDA j : S!IAbs(O[i][j][1]) + S!IAbs(O[i][j][2]), n)
Max(f(_), n) == LET RECURSIVE m(_)
                    m(k) == IF k = 0 THEN 0 ELSE LET x == m(k - 1) IN IF f(k) > x THEN f(k) ELSE x IN m(n)
Near(a, b, t) == S!IAbs(a[1] - b[1]) <= t /\ S!IAbs(a[2] - b[2]) <= t
Milli(z) == <<z[1] \div 1000, z[2] \div 1000>>
\* products with the vectors (in 1/1000), entries of a zero skipped
Part(x, y) == IF x = S!Z \/ y = S!Z THEN S!Z ELSE Milli(S!CMul(x, y))
MMulM(A, B, r, k, q) == TLCEval([i \in 1 .. r |-> TLCEval([j \in 1 .. q |-> S!SumC(LAMBDA m : Part(A[i][m], B[m][j]), k)])])
\* vectors that are states
Plain(B, n, k) == \A i \in 1 .. n : (\A j \in 1 .. k : B[i][j] \in {<<0, 0>>, <<1000, 0>>, <<-1000, 0>>, <<0, 1000>>, <<0, -1000>>})
Right(x, e) ==
  LET n == Len(e.st)
      k == e.B.c
      O == TLCEval(S!Operator2(c.T, c.pool, set[x], c.u, e.st))
      r == TLCEval(Max(LAMBDA i : RowSum(O, n, i), n))
      A == TLCEval(MMulM(O, e.B.e, n, n, k))
      P == TLCEval(MMulM(S!Adj(e.B.e, n, k), A, k, n, k))
      I == TLCEval(S!MMul(S!Adj(e.B.e, n, k), e.B.e, k, n, k))
      t == IF Plain(e.B.e, n, k) THEN 3 ELSE IF mixed = 2 THEN (r \div 400) + 2 * n + 5 ELSE (r \div 800) + 2 * n + 3 IN
  /\ n > 0 => Len(e.B.e) = n
  /\ \A i \in 1 .. n : e.st[i][1] > 0 /\ e.st[i][2] > 0
  /\ Cardinality({e.st[i] : i \in 1 .. n}) = n
  /\ k = nv[x] /\ e.H.r = k /\ e.H.c = k
  /\ \A i \in 1 .. k : (\A j \in 1 .. k : Near(P[i][j], e.H.e[i][j], t))
  /\ \A i \in 1 .. k : (\A j \in 1 .. k : Near(I[i][j], IF i = j THEN <<1000000, 0>> ELSE S!Z, 6000))
\* whether a reading is possible; for some either answer will do
Free(x) == LET g == set[x]
               v == S!Vec(g) IN
           g.r # 0 /\ (\/ ~c.cplx /\ v[2] # 0
                       \/ x \in rough /\ g.dir = <<0, 0, -1>> /\ g.order > 3 /\ ~g.gt)
CanRead(x, did) == Free(x) \/ did = S!Readable(set[x])
Kinds == S!Settings2 \cup {"States", "Basis", "BuildI", "Diag", "Canon", "Constrain", "Copy", "Save"}
Reading == {"BuildI", "Diag", "Canon", "Constrain"}
Built(x) == IF st[x] = "frozen" \/ c.sys[x].ms THEN "frozen" ELSE "done"
\* after a refused reading joining may be refused until a reading succeeded
Stuck(x) == IF st[x] = "frozen" THEN st ELSE [st EXCEPT ![x] = "stuck"]
Legal(x, e) == e.event # "Constrain" \/ \A i \in 1 .. Len(e.a) : e.a[i] < nv[x]
Op == /\ More /\ Ev.event \in Kinds /\ l' = l + 1
      /\ LET x == Ev.s
             w == S!Move(set[x], Ev.event, Ev.a)
             did == ~Ev.res_err IN
         /\ IF Ev.event \in S!Settings2
            THEN IF st[x] = "frozen" /\ w.ok THEN TRUE ELSE Ev.res_err = ~w.ok
            ELSE IF Ev.event \in Reading THEN (IF Legal(x, Ev) THEN CanRead(x, did) \/ (st[x] \in {"done", "frozen"} /\ did) ELSE ~did)
            ELSE did
         /\ nv' = (IF did /\ Ev.event = "Constrain" THEN [nv EXCEPT ![x] = Len(Ev.a)] ELSE nv)
         /\ set' = (IF did THEN [set EXCEPT ![x] = w.set] ELSE set)
         /\ st' = (CASE Ev.event \in S!Settings2 -> (IF did /\ st[x] \notin {"frozen", "stuck"} THEN [st EXCEPT ![x] = "fresh"] ELSE st)
                    [] ~did -> Stuck(x)
                    [] Ev.event \in {"Diag", "BuildI"} -> [st EXCEPT ![x] = IF Ev.event = "Diag" THEN Built(x) ELSE @]
                    [] Ev.event \in {"Constrain", "Canon"} /\ mixed > 0 -> [st EXCEPT ![x] = "frozen"]
                    [] Ev.event \in {"Canon", "Constrain"} -> [st EXCEPT ![x] = Built(x)]
                    [] OTHER -> st)
         /\ rough' = (CASE Ev.event = "Angle" -> rough \cup {x}
                       [] Ev.event = "Dist" /\ set[x].dn # 1 -> rough \cup {x}
                       [] Ev.event = "Vec" /\ did -> rough \ {x}
                       [] OTHER -> rough)
         /\ mixed' = (CASE ~did -> mixed [] Ev.event = "Diag" -> 2 [] Ev.event = "Canon" /\ mixed = 0 -> 1 [] OTHER -> mixed) /\ UNCHANGED <<c, gone>>
\* systems are joined only when their settings agree
Disjoint == c.sys[1].perm = -c.sys[2].perm
Join == /\ IsEvent("Join")
        /\ /\ set[1] # set[2] => Ev.res_err
           /\ (~gone /\ set[1] = set[2] /\ Disjoint /\ st = <<"fresh", "fresh">> /\ rough = {}) => ~Ev.res_err
           /\ ~Disjoint => Ev.res_err
        /\ gone' = (gone \/ ~Ev.res_err)
        /\ nv' = (IF Ev.res_err THEN nv ELSE [i \in 1 .. 2 |-> IF i = Ev.s THEN nv[1] + nv[2] ELSE nv[i]]) /\ UNCHANGED <<c, set, mixed, st, rough>>
Ham == /\ IsEvent("Ham") /\ UNCHANGED <<c, set, mixed, gone, rough, nv>>
       /\ CanRead(Ev.s, ~Ev.res_err) \/ (st[Ev.s] \in {"done", "frozen"} /\ ~Ev.res_err)
       /\ st' = (IF Ev.res_err THEN Stuck(Ev.s) ELSE [st EXCEPT ![Ev.s] = Built(Ev.s)])
       /\ IF Ev.res_err THEN TRUE ELSE ~Ev.H_err /\ ~Ev.B_err /\ ~Ev.st_err /\ Right(Ev.s, Ev)
TNext == Start \/ Op \/ Join \/ Ham
TSpec == TInit /\ [][TNext]_vars
=============================================================================
