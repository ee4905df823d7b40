----------------------------- MODULE EngineTrace -----------------------------
(* Histories of the real engine on a directory of results. The properties of *)
(* module EngineCache, observed: whatever is in the directory, a calculation  *)
(* that is let alone announces all of its matrices once, and every announced  *)
(* matrix is the one an empty directory gives.                               *)
EXTENDS TraceBase
VARIABLE want
vars == <<l, want>>
Set(s) == {s[k] : k \in 1 .. Len(s)}
TInit == TrackInit /\ l = 1 /\ want = <<>>
Start == IsEvent("Start") /\ Ev.end = "ok" /\ want' = <<Set(Ev.want)>>
Truth == IsEvent("Truth") /\ Ev.end = "ok" /\ Ev.n = Len(want) + 1 /\ want' = Append(want, Set(Ev.want))
\* a: what was asked for, r: what came
Right(a, r) ==
  LET got == {<<r.got[k][1], r.got[k][2]>> : k \in 1 .. Len(r.got)} IN
  /\ (\A k \in 1 .. Len(r.got) : r.got[k][3]) /\ Cardinality(got) = Len(r.got)
  /\ IF r.end = "killed" THEN a.cut > 0 /\ got \subseteq want[a.c] ELSE r.end = "ok" /\ got = want[a.c]
Run == IsEvent("Run") /\ Right(Ev.a, Ev.r) /\ UNCHANGED want
Par == IsEvent("Par") /\ Len(Ev.a) = Len(Ev.r) /\ (\A k \in 1 .. Len(Ev.a) : Right(Ev.a[k], Ev.r[k])) /\ UNCHANGED want
Damage == IsEvent("Damage") /\ UNCHANGED want
TNext == Start \/ Truth \/ Run \/ Par \/ Damage
TSpec == TInit /\ [][TNext]_vars
=============================================================================
