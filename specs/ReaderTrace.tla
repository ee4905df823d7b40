----------------------------- MODULE ReaderTrace -----------------------------
(* Sessions of the real reader against module Reader.                        *)
EXTENDS TraceBase
R == INSTANCE Reader
VARIABLE s
vars == <<l, s>>
TInit == TrackInit /\ l = 1 /\ s = R!Clean
\* what can be seen of the reader
Seen(t) == /\ Ev.part = t.part /\ Ev.dim = t.dim /\ Ev.cur = t.cur /\ Ev.tot = t.tot /\ Ev.fin = t.fin
           /\ Ev.nums = t.nums /\ Ev.head = t.head /\ Ev.files = t.files /\ Ev.waiting = <<Len(t.mats[1]), Len(t.mats[2]), Len(t.mats[3])>>
Start == IsEvent("Start") /\ s' = R!Clean /\ Seen(s')
Line == IsEvent("Line") /\ s' = R!Line(s, Ev.a) /\ Seen(s')
Take == /\ IsEvent("Take")
        /\ IF s.mats[Ev.a] = <<>> THEN Ev.got = <<>> /\ s' = s
           ELSE Ev.got = <<s.mats[Ev.a][1]>> /\ s' = [s EXCEPT !.mats[Ev.a] = Tail(@)]
        /\ Seen(s')
TakeFile == /\ IsEvent("TakeFile")
            /\ IF s.files[Ev.a] = <<>> THEN Ev.got = <<>> /\ s' = s
               ELSE Ev.got = <<s.files[Ev.a][1]>> /\ s' = [s EXCEPT !.files[Ev.a] = Tail(@)]
            /\ Seen(s')
Clear == IsEvent("Clear") /\ s' = R!Clean /\ Seen(s')
\* (the interface starts reading with a clean reader; quit: the user stops while this line is read)
First(xs, n) == IF n >= Len(xs) THEN xs ELSE SubSeq(xs, 1, n)
Stream == /\ IsEvent("Stream")
          /\ \E n \in IF Ev.quit > 0 THEN {Ev.quit - 1, Ev.quit} ELSE {Len(Ev.a)} :
             LET xs == First(Ev.a, n) IN s' = R!Stream(R!Clean, xs) /\ Ev.errors = R!Errors(xs)
          /\ Ev.closed /\ Seen(s')
TNext == Start \/ Line \/ Take \/ TakeFile \/ Clear \/ Stream
TSpec == TInit /\ [][TNext]_vars
=============================================================================
