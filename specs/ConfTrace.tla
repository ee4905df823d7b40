----------------------------- MODULE ConfTrace -----------------------------
EXTENDS TraceBase
VARIABLES conf, file
C == INSTANCE Conf WITH Confs <- 0 .. 3, NoFile <- NoValue, Keys <- {}, Vals <- {}, Files <- {}
TInit == TrackInit /\ l = 1 /\ C!Init
Val(e) == [text |-> e.text, i |-> e.i, u |-> e.u, d |-> e.d, f |-> e.f]
FileOf(e) == [k \in {e.keys[j] : j \in 1 .. Len(e.keys)} |->
                Val(e.vals[CHOOSE j \in 1 .. Len(e.keys) : e.keys[j] = k])]
Ok(want, got) == want = "any" \/ want = got
Same(c, ks, ts) == /\ Len(ks) = Cardinality(DOMAIN conf[c])
                   /\ \A j \in 1 .. Len(ks) : ks[j] \in DOMAIN conf[c] /\ conf[c][ks[j]].text = ts[j]
                   /\ \A j, m \in 1 .. Len(ks) : j # m => ks[j] # ks[m]
Keep == UNCHANGED <<conf, file>>
TNext == \/ IsEvent("Reset") /\ conf' = [c \in 0 .. 3 |-> <<>>] /\ file' = <<>>
         \/ IsEvent("Put") /\ C!Put(Ev.c, Ev.k, Val(Ev))
         \/ IsEvent("Touch") /\ C!Touch(Ev.c, Ev.k)
         \/ IsEvent("Add") /\ C!Add(Ev.c, Ev.d)
         \/ IsEvent("Copy") /\ C!Copy(Ev.c, Ev.d)
         \/ IsEvent("Save") /\ Ev.o = "ok" /\ C!Save(Ev.c, Ev.p)
         \/ IsEvent("WriteFile") /\ C!WriteFile(Ev.p, FileOf(Ev))
         \/ IsEvent("Spoil") /\ C!WriteFile(Ev.p, NoValue)
         \/ IsEvent("Load") /\ C!Load(Ev.c, Ev.p, Ev.o)
         \/ IsEvent("Read") /\ Ok(C!Read(Ev.c, Ev.k, Ev.type), Ev.r) /\ Keep
         \/ IsEvent("Count") /\ Ev.r = (IF Ev.k \in DOMAIN conf[Ev.c] THEN 1 ELSE 0) /\ Keep
         \/ IsEvent("Equal") /\ Ev.r = C!Equal(Ev.c, Ev.d) /\ Keep
         \/ IsEvent("List") /\ Same(Ev.c, Ev.keys, Ev.texts) /\ Ev.size = Len(Ev.keys) /\ Keep
TSpec == TInit /\ [][TNext]_<<l, conf, file>>
=============================================================================
