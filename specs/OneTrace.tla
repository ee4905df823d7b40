------------------------------ MODULE OneTrace ------------------------------
(* Histories of a real SystemOne: whenever the Hamiltonian is asked for it *)
(* is the operator that module One gives for the settings in force, taken  *)
(* between the basis vectors that the system reports.                      *)
EXTENDS TraceBase
S == INSTANCE One
\* gone: a join took place (joining again would overlap); st: for each system whether
\* its interaction is contained ("done"), settings were changed since ("fresh"),
\* or changes may be refused from now on ("frozen")
\* mixed: the vectors were changed by a diagonalisation (2) or canonicalisation (1)
\* rough: fields that were computed from angles, equal only up to rounding
VARIABLES c, set, mixed, gone, st, rough, nv
vars == <<l, c, set, mixed, gone, st, rough, nv>>
TInit == TrackInit /\ l = 1 /\ c = <<>> /\ set = <<>> /\ mixed = 0 /\ gone = FALSE /\ st = <<>> /\ rough = {} /\ nv = <<>>
Start == IsEvent("Start") /\ c' = Ev.cfg /\ set' = <<S!New, S!New>> /\ mixed' = 0 /\ gone' = FALSE /\ st' = <<"new", "new">> /\ rough' = {} /\ nv' = [i \in 1 .. 2 |-> Ev.cfg.sys[i].nv]
RowSum(O, n, i) == S!SumI(LAMBDA j : S!IAbs(O[i][j][1]) + S!IAbs(O[i][j][2]), n)
Max(f(_), n) == LET RECURSIVE m(_)
                    m(k) == IF k = 0 THEN 0 ELSE LET x == m(k - 1) IN IF f(k) > x THEN f(k) ELSE x IN m(n)
Near(a, b, t) == S!IAbs(a[1] - b[1]) <= t /\ S!IAbs(a[2] - b[2]) <= t
Milli(z) == <<z[1] \div 1000, z[2] \div 1000>>
Right(x, e) ==
  LET n == Len(e.st)
      k == e.B.c
      O == TLCEval(S!Operator(c.T, c.pool, set[x], e.st))
      r == TLCEval(Max(LAMBDA i : RowSum(O, n, i), n))
      A == TLCEval(S!MMul(O, e.B.e, n, n, k))
      P == TLCEval(S!MMul(S!Adj(e.B.e, n, k), A, k, n, k))
      I == TLCEval(S!MMul(S!Adj(e.B.e, n, k), e.B.e, k, n, k))
      t == IF mixed = 2 THEN 2 * r + 5 ELSE (r \div 2) + 3 IN
  /\ n > 0 => Len(e.B.e) = n
  /\ \A i \in 1 .. n : e.st[i] > 0
  /\ Cardinality({e.st[i] : i \in 1 .. n}) = n
  /\ k = nv[x] /\ e.H.r = k /\ e.H.c = k
  /\ \A i \in 1 .. k : (\A j \in 1 .. k : Near(Milli(P[i][j]), e.H.e[i][j], t))
  /\ \A i \in 1 .. k : (\A j \in 1 .. k : Near(I[i][j], IF i = j THEN <<1000000, 0>> ELSE S!Z, 6000))
Kinds == S!Settings \cup {"States", "Basis", "BuildI", "Diag", "Canon", "Constrain", "Copy", "Save"}
Built(x) == IF st[x] = "frozen" \/ c.sys[x].ms THEN "frozen" ELSE "done"
Op == /\ More /\ Ev.event \in Kinds /\ l' = l + 1
      /\ LET x == Ev.s
             w == S!Change(c.cplx, set[x], Ev.event, Ev.a)
             did == ~Ev.res_err IN
         /\ IF Ev.event \in S!Settings
            THEN IF st[x] = "frozen" /\ w.ok THEN TRUE ELSE Ev.res_err = ~w.ok
            ELSE IF Ev.event = "Constrain" THEN did = (\A i \in 1 .. Len(Ev.a) : Ev.a[i] < nv[x]) ELSE did
         /\ nv' = (IF did /\ Ev.event = "Constrain" THEN [nv EXCEPT ![x] = Len(Ev.a)] ELSE nv)
         /\ set' = (IF did THEN [set EXCEPT ![x] = w.set] ELSE set)
         /\ st' = (CASE Ev.event \in S!Settings -> (IF did /\ st[x] # "frozen" THEN [st EXCEPT ![x] = "fresh"] ELSE st)
                    [] Ev.event \in {"Diag", "BuildI"} -> [st EXCEPT ![x] = IF Ev.event = "Diag" THEN Built(x) ELSE @]
                    [] Ev.event \in {"Constrain", "Canon"} /\ mixed > 0 -> [st EXCEPT ![x] = "frozen"]
                    [] Ev.event \in {"Canon", "Constrain"} -> [st EXCEPT ![x] = Built(x)]
                    [] OTHER -> st)
      /\ rough' = (CASE Ev.event \in {"ETurn", "BTurn"} -> rough \cup {<<Ev.s, Ev.event>>}
                    [] Ev.event \in {"E", "EAxes"} -> rough \ {<<Ev.s, "ETurn">>}
                    [] Ev.event \in {"B", "BAxes"} -> rough \ {<<Ev.s, "BTurn">>} [] OTHER -> rough)
      /\ mixed' = (CASE Ev.event = "Diag" -> 2 [] Ev.event = "Canon" /\ mixed = 0 -> 1 [] OTHER -> mixed) /\ UNCHANGED <<c, gone>>
\* systems are joined only when their settings agree
Join == /\ IsEvent("Join")
        /\ /\ set[1] # set[2] => Ev.res_err
           /\ (~gone /\ set[1] = set[2] /\ st = <<"fresh", "fresh">> /\ rough = {}) => ~Ev.res_err
        /\ gone' = (gone \/ ~Ev.res_err)
        /\ nv' = (IF Ev.res_err THEN nv ELSE [i \in 1 .. 2 |-> IF i = Ev.s THEN nv[1] + nv[2] ELSE nv[i]]) /\ UNCHANGED <<c, set, mixed, st, rough>>
Ham == /\ IsEvent("Ham") /\ UNCHANGED <<c, set, mixed, gone, rough, nv>> /\ st' = [st EXCEPT ![Ev.s] = Built(Ev.s)]
       /\ ~Ev.res_err /\ ~Ev.H_err /\ ~Ev.B_err /\ ~Ev.st_err /\ Right(Ev.s, Ev)
TNext == Start \/ Op \/ Join \/ Ham
TSpec == TInit /\ [][TNext]_vars
=============================================================================
