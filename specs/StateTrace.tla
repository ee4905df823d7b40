----------------------------- MODULE StateTrace -----------------------------
(* States made and compared by the real classes.                           *)
EXTENDS TraceBase
VARIABLE tab
S == INSTANCE State WITH ARB <- 32767
TInit == TrackInit /\ l = 1 /\ tab = <<>>
Of(e) == [k |-> e.k, sp |-> e.sp, q |-> e.q]
New == IsEvent("New") /\ tab' = <<>>
Neg(s) == [s EXCEPT !.q[4] = -@]
\* (sets are written as sequences in a trace)
SetOf(x) == {x[i] : i \in 1 .. Len(x)}
\* what a state reports about itself
Make == /\ IsEvent("Make")
        /\ LET s == Of(Ev) IN
           /\ tab' = Append(tab, s)
           /\ Ev.artificial = S!Artificial(s) /\ Ev.generalized = S!Generalized(s)
           /\ Ev.osp = s.sp
           /\ IF S!Artificial(s)
              THEN SetOf(Ev.refused) = {"n", "l", "j", "m", "s", "species", "element", "reflected"}
              ELSE /\ SetOf(Ev.refused) = {"label"} /\ Ev.oq = s.q /\ Ev.oel = S!Element(s)
                   /\ Ev.os2 = S!TwiceSpin(s) /\ Ev.rsp = s.sp /\ Ev.rq = Neg(s).q
           /\ (~S!Generalized(s) /\ (s.q[3] - s.q[4]) % 2 = 0) => Ev.text = S!Text(s, Ev.spstr)
\* a Rydberg state with n = 0 would be taken for an artificial one: it is refused
Zero == IsEvent("Zero") /\ Ev.refused /\ UNCHANGED tab
Cmp == /\ IsEvent("Cmp")
       /\ LET a == tab[Ev.a]
              b == tab[Ev.b] IN
          /\ Ev.eq = S!Eq(a, b) /\ Ev.ne = ~S!Eq(a, b) /\ Ev.lt = S!Lt(a, b)
          /\ Ev.le = (S!Lt(a, b) \/ S!Eq(a, b)) /\ Ev.match = S!Match(a, b)
          /\ (S!Eq(a, b) => Ev.heq)
       /\ UNCHANGED tab
P(x) == <<tab[x[1]], tab[x[2]]>>
Cmp2 == /\ IsEvent("Cmp2")
        /\ LET a == P(Ev.a)
               b == P(Ev.b) IN
           /\ Ev.eq = S!Eq2(a, b) /\ Ev.ne = ~S!Eq2(a, b) /\ Ev.lt = S!Lt2(a, b)
           /\ Ev.le = (S!Lt2(a, b) \/ S!Eq2(a, b)) /\ Ev.match = S!Match2(a, b)
           /\ (S!Eq2(a, b) => Ev.heq)
           \* the parts, and the ways to build and read a pair, agree
           /\ Ev.same
        /\ UNCHANGED tab
OldCmp == /\ IsEvent("OldCmp")
          /\ LET a == tab[Ev.a]
                 b == tab[Ev.b] IN
             /\ Ev.eq = S!OldEq(a, b) /\ Ev.ne = ~S!OldEq(a, b) /\ Ev.lt = S!OldLt(a, b)
             /\ Ev.match = S!OldMatch(a, b) /\ (S!OldEq(a, b) => Ev.heq)
          /\ UNCHANGED tab
OldCmp2 == /\ IsEvent("OldCmp2")
           /\ LET a == P(Ev.a)
                  b == P(Ev.b) IN
              /\ Ev.eq = S!OldEq2(a, b) /\ Ev.ne = ~S!OldEq2(a, b) /\ Ev.lt = S!OldLt2(a, b)
              /\ Ev.match = S!OldMatch2(a, b) /\ (S!OldEq2(a, b) => Ev.heq) /\ Ev.same
              \* ordered: the smaller one first
              /\ Ev.ordered = (IF S!OldLt(a[2], a[1]) THEN a[2].q \o a[1].q ELSE a[1].q \o a[2].q)
           /\ UNCHANGED tab
\* a container keyed by states holds each state once and finds it again
Contain == /\ IsEvent("Contain")
           /\ LET keys == {S!Key(tab[i]) : i \in SetOf(Ev.ids)} IN
              Ev.hashed = Cardinality(keys) /\ Ev.sorted = Cardinality(keys) /\ Ev.found
           /\ UNCHANGED tab
Stored == IsEvent("Stored") /\ Ev.same /\ UNCHANGED tab
TNext == New \/ Make \/ Zero \/ Cmp \/ Cmp2 \/ OldCmp \/ OldCmp2 \/ Contain \/ Stored
TSpec == TInit /\ [][TNext]_<<l, tab>>
=============================================================================
