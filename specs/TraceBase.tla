---------------------------- MODULE TraceBase ----------------------------
(* Common part of all trace specifications: the recorded trace, the        *)
(* position in it, and acceptance by the longest matched prefix.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT NoValue
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
More == l <= Len(Trace)
Ev == Trace[l]
IsEvent(e) == More /\ Ev.event = e /\ l' = l + 1
TrackInit == TLCSet(1, 0)
Track == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
Report == PrintT(<<"@@MATCHED@@", TLCGet(1)>>)
=============================================================================
