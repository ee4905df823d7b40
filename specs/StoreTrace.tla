----------------------------- MODULE StoreTrace -----------------------------
(* Histories of real stores against module Store.                          *)
EXTENDS TraceBase
S == INSTANCE Store
M == INSTANCE Mult
VARIABLES c, ob
vars == <<l, c, ob>>
TInit == TrackInit /\ l = 1 /\ c = <<>> /\ ob = <<>>
Start == IsEvent("Start") /\ c' = Ev.cfg /\ ob' = <<S!Off, S!Off>>
Open == IsEvent("Open") /\ ~Ev.res_err /\ ob' = [ob EXCEPT ![Ev.s] = S!New(Ev.a)] /\ UNCHANGED c
Simple == {"Method", "Defect", "Pre"}
Settings == /\ More /\ Ev.event \in Simple /\ l' = l + 1 /\ ~Ev.res_err
            /\ ob' = [ob EXCEPT ![Ev.s] = S!Change(@, Ev.event, Ev.a)] /\ UNCHANGED c
Load == /\ IsEvent("Load")
        /\ LET o == ob[Ev.s] IN
           IF Ev.res_err THEN S!Doubtful(c, o) /\ ob' = [ob EXCEPT ![Ev.s].pre = {}]
           ELSE ob' = [ob EXCEPT ![Ev.s] = S!Change(@, "Load", Ev.a)]
        /\ UNCHANGED c
\* an answer (or "refused") of object o
\* (a request may be answered without calculating what was announced; only one that
\* fails because of it shows that the announcement is used up)
After(o, r, v) == IF v = S!Answer(c, o, r) THEN o ELSE [o EXCEPT !.pre = {}]
Good(o, r, v) == v = S!Answer(c, o, r) \/ (v = "refused" /\ S!Doubtful(c, o))
Ask == /\ IsEvent("Ask") /\ Good(ob[Ev.s], Ev.a, Ev.v)
       /\ ob' = [ob EXCEPT ![Ev.s] = After(@, Ev.a, Ev.v)]
       /\ UNCHANGED c
\* saved and restored, the second time after the directory was removed
Save == /\ More /\ Ev.event \in {"Save", "Revive"} /\ l' = l + 1 /\ ~Ev.res_err /\ UNCHANGED <<c, ob>>
\* another process: with a copy of the object, or with its own (same settings, no tables);
\* a killed one answers nothing more
Answers(o, rs, vs, killed) ==
  /\ (~killed => Len(vs) = Len(rs)) /\ Len(vs) <= Len(rs)
  /\ LET RECURSIVE all(_, _)
         all(x, i) == IF i > Len(vs) THEN TRUE ELSE IF ~Good(x, rs[i], vs[i]) THEN FALSE ELSE all(After(x, rs[i], vs[i]), i + 1) IN all(o, 1)
Twin(o, fresh) == IF fresh THEN [o EXCEPT !.tabs = <<>>, !.pre = {}] ELSE o
One(o, a, e) == Answers(Twin(o, a.fresh), a.r, e.v, e.killed) /\ (e.killed => a.cut > 0)
Child == IsEvent("Child") /\ One(ob[Ev.s], Ev.a, Ev.got) /\ UNCHANGED <<c, ob>>
Par == IsEvent("Par") /\ (\A i \in 1 .. Len(Ev.a) : One(ob[Ev.s], Ev.a[i], Ev.got[i])) /\ UNCHANGED <<c, ob>>
\* the elements of the calculation engine
OldOne(a, e) ==
  /\ (~e.killed => Len(e.v) = Len(a.r)) /\ Len(e.v) <= Len(a.r) /\ (e.killed => a.cut > 0)
  \* (m = 3: nothing may be calculated)
  /\ \A i \in 1 .. Len(e.v) : (e.v[i] = c.old[a.m][a.r[i]] \/ (a.m = 3 /\ e.v[i] = "refused"))
Old == IsEvent("Old") /\ OldOne(Ev.a, Ev.got) /\ UNCHANGED <<c, ob>>
OldPar == IsEvent("OldPar") /\ (\A i \in 1 .. Len(Ev.a) : OldOne(Ev.a[i], Ev.got[i])) /\ UNCHANGED <<c, ob>>
\* a loaded element: the reduced element is the one in the table. p: the states of the two levels,
\* radial (1/1000 au) and d (1/1000): d^2 = radial^2 * sum of the squared angular parts
Table == /\ IsEvent("Table")
         /\ LET x == Ev.row
                J1 == {m \in -x[3] .. x[3] : (m + x[3]) % 2 = 0}
                J2 == {m \in -x[6] .. x[6] : (m + x[6]) % 2 = 0}
                s(m1, m2) == LET v == M!Pole(Ev.s2, 1, <<x[1], x[2], x[3], m1>>, <<x[4], x[5], x[6], m2>>) IN v * v
                RECURSIVE sum(_)
                sum(S0) == IF S0 = {} THEN 0 ELSE LET p == CHOOSE p \in S0 : TRUE IN s(p[1], p[2]) + sum(S0 \ {p})
                red == M!ISqrt(sum(J1 \X J2), 0, 46340)
                r == M!IAbs(Ev.radial) IN
            M!IAbs(M!Over((r \div 4) * red, 2500) - Ev.d) <= 5 + Ev.d \div 500 + r \div 1000 + red \div 2500
         /\ UNCHANGED <<c, ob>>
TNext == Start \/ Open \/ Settings \/ Load \/ Ask \/ Save \/ Child \/ Par \/ Old \/ OldPar \/ Table
TSpec == TInit /\ [][TNext]_vars
=============================================================================
