-------------------------------- MODULE Sql --------------------------------
(***************************************************************************)
(* One connection and one statement object: the life cycle of the          *)
(* statement (set, prepare, bind, step, reset, exec, iteration) over a     *)
(* table t(id, n, txt, x) and a table u(k primary key).                    *)
(*                                                                         *)
(* Queries (the texts are known to the driver):                            *)
(*   ins    insert into t values(?1,?2,?3,?4)                              *)
(*   sel    select * from t order by n desc, id        (all rows)          *)
(*   ge     select * from t where n >= ?1 order by n, id desc              *)
(*   del    delete from t where n = ?1                                     *)
(*   cnt    select count of t as a row                                     *)
(*   uni    insert into u values(?1)                   (may be refused)    *)
(*   bad    not SQL                                                        *)
(* Outcomes of a call: "ok", "row", "done", "err".                         *)
(* No column of t or u may be null.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Null
VARIABLES tab,    \* sequence of rows of t in insertion order (id = first column)
          uniq,   \* set of keys in u
          sql,    \* query text of the statement object
          prep,   \* it was prepared since the text was set
          cur,    \* the query the compiled statement holds, or Null
          valid,  \* stepping is allowed (not finished since the last reset)
          run,    \* Null, or the rows still to be delivered
          par,    \* bound parameters 1..4
          row,    \* row last fetched, or Null
          failed, \* the last step of the compiled statement failed
          fin     \* the compiled statement ran to its end and was not reset
vars == <<tab, uniq, sql, prep, cur, valid, run, par, row, failed, fin>>

Queries == {"ins", "sel", "ge", "del", "cnt", "uni", "bad"}
NPar(q) == CASE q = "ins" -> 4 [] q \in {"ge", "del", "uni"} -> 1 [] OTHER -> 0
NoPar == [i \in 1 .. 4 |-> Null]
Init == /\ tab = <<>> /\ uniq = {} /\ sql = Null /\ prep = FALSE /\ cur = Null /\ valid = TRUE
        /\ run = Null /\ par = NoPar /\ row = Null /\ failed = FALSE /\ fin = FALSE

LtSel(a, b) == a[2] > b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
LtGe(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] > b[1])
Rows(q, t, p) == CASE q = "sel" -> SortSeq(t, LtSel)
                   [] q = "ge" -> IF p[1] = Null THEN <<>>
                                  ELSE SortSeq(SelectSeq(t, LAMBDA r : r[2] >= p[1]), LtGe)
                   [] q = "cnt" -> << <<Len(t)>> >>
                   [] OTHER -> <<>>

Set(q) == /\ sql' = q /\ prep' = FALSE
          /\ UNCHANGED <<tab, uniq, cur, valid, run, par, row, failed, fin>>
\* A query that cannot be compiled leaves no compiled statement behind.
Prepare(o) == /\ o = IF sql \in {"bad", Null} THEN (IF sql = Null THEN "ok" ELSE "err") ELSE "ok"
              /\ cur' = IF sql = "bad" THEN Null ELSE sql
              /\ prep' = IF o = "ok" THEN TRUE ELSE prep
              /\ run' = Null /\ par' = NoPar /\ row' = Null /\ failed' = FALSE /\ fin' = FALSE
              /\ UNCHANGED <<tab, uniq, sql, valid>>
\* Binding needs a compiled statement that is not in the middle of a result
Bind(i, v, o) == LET good == cur # Null /\ run = Null /\ i \in 1 .. NPar(cur) IN
          /\ o \in IF good THEN (IF fin THEN {"ok", "err"} ELSE {"ok"}) ELSE {"err"}
          /\ par' = IF o = "ok" THEN [par EXCEPT ![i] = v] ELSE par
          /\ UNCHANGED <<tab, uniq, sql, prep, cur, valid, run, row, failed, fin>>
\* What executing the compiled statement does at its first step
StepOk(o, rr) ==
   /\ prep /\ valid /\ cur # Null
   /\ IF cur \in {"sel", "ge", "cnt"}
      THEN LET rs == IF run = Null THEN Rows(cur, tab, par) ELSE run IN
           /\ UNCHANGED <<tab, uniq, failed>>
           /\ IF rs = <<>> THEN /\ o = "done" /\ valid' = FALSE /\ run' = Null /\ row' = Null
                                  /\ fin' = TRUE
              ELSE /\ o = "row" /\ row' = Head(rs) /\ rr = Head(rs) /\ run' = Tail(rs)
                   /\ UNCHANGED <<valid, fin>>
      ELSE /\ run' = Null /\ row' = Null /\ valid' = FALSE /\ fin' = TRUE
           /\ CASE cur = "ins" -> IF \E i \in 1 .. 4 : par[i] = Null
                                  THEN o = "err" /\ failed' = TRUE /\ UNCHANGED <<tab, uniq>>
                                  ELSE /\ o = "done" /\ tab' = Append(tab, par)
                                       /\ UNCHANGED <<uniq, failed>>
                [] cur = "del" -> /\ o = "done"
                                  /\ tab' = SelectSeq(tab, LAMBDA r : par[1] = Null \/ r[2] # par[1])
                                  /\ UNCHANGED <<uniq, failed>>
                [] cur = "uni" -> IF par[1] \in uniq \/ par[1] = Null
                                  THEN o = "err" /\ failed' = TRUE /\ UNCHANGED <<tab, uniq>>
                                  ELSE /\ o = "done" /\ uniq' = uniq \cup {par[1]}
                                       /\ UNCHANGED <<tab, failed>>
   /\ UNCHANGED <<sql, prep, cur, par>>
StepRefused(o) == /\ ~(prep /\ valid /\ cur # Null) /\ o = "err"
                  /\ valid' \in IF prep /\ cur = Null THEN {valid, FALSE} ELSE {valid}
                  /\ UNCHANGED <<tab, uniq, sql, prep, cur, run, par, row, failed, fin>>
Step(o, rr) == StepOk(o, rr) \/ StepRefused(o)
\* After a failed step the reset may report that failure once more; it may then have to be repeated.
Reset(o) == /\ \/ o = "ok" /\ valid' = TRUE
               \/ o = "err" /\ failed /\ UNCHANGED valid
            /\ run' = Null /\ row' = Null /\ failed' = FALSE /\ fin' = FALSE
            /\ UNCHANGED <<tab, uniq, sql, prep, cur, par>>
\* Direct execution of a complete text; it replaces the text of the statement.
ExecIns(r, o) == /\ o = "ok" /\ tab' = Append(tab, r) /\ sql' = "ins" /\ prep' = FALSE
                 /\ UNCHANGED <<uniq, cur, valid, run, par, row, failed, fin>>
ExecBad(o) == /\ o = "err" /\ sql' = "bad" /\ prep' = FALSE
              /\ UNCHANGED <<tab, uniq, cur, valid, run, par, row, failed, fin>>
\* Range iteration delivers all rows that stepping would still deliver, then the statement is done.
ForEach(o, rs) ==
   \/ /\ prep /\ valid /\ cur \in {"sel", "ge", "cnt"} /\ o = "ok"
      /\ rs = IF run = Null THEN Rows(cur, tab, par) ELSE run
      /\ valid' = FALSE /\ run' = Null /\ row' = Null /\ fin' = TRUE
      /\ UNCHANGED <<tab, uniq, sql, prep, cur, par, failed>>
   \/ /\ prep /\ valid /\ cur \in {"ins", "del", "uni"} /\ rs = <<>>
      /\ \E so \in {"done", "err"} : StepOk(so, Null) /\ o = (IF so = "err" THEN "err" ELSE "ok")
   \/ StepRefused(o) /\ rs = <<>>

\* Used when exploring: parameters that this table can take
CONSTANTS Ns, MaxRows
Next == \/ \E q \in Queries : Set(q)
        \/ \E o \in {"ok", "err"} : Prepare(o) \/ Reset(o) \/ ExecBad(o)
                                    \/ \E i \in 1 .. 4, v \in Ns : Bind(i, v, o)
        \/ \E o \in {"row", "done", "err"} : Step(o, IF run = Null \/ run = <<>>
                THEN (IF cur \in {"sel", "ge", "cnt"} /\ Rows(cur, tab, par) # <<>>
                      THEN Head(Rows(cur, tab, par)) ELSE Null)
                ELSE Head(run))
        \/ (\E n \in Ns : ExecIns(<<Len(tab), n, n, n>>, "ok"))
Spec == Init /\ [][Next]_vars
Bound == Len(tab) <= MaxRows
-----------------------------------------------------------------------------
\* Rows come only from a live result, and a fetched row is a row of the table (or its count).
RowIsReal == (row # Null /\ cur \in {"sel", "ge"}) => Len(row) = 4
DoneMeansNothingLeft == ~valid => run = Null
\* Nothing but an insert or delete changes the table.
OnlyWritesWrite == [][tab' # tab => (cur \in {"ins", "del"} \/ (sql' = "ins" /\ ~prep'))]_vars
\* Rows still to be delivered only ever shrink from the front while one result is being read.
InOrder == [][(run # Null /\ run' # Null /\ run # run') => (run # <<>> /\ run' = Tail(run))]_vars
=============================================================================
