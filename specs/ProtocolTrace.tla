--------------------------- MODULE ProtocolTrace ---------------------------
(* Outputs of the real engine against module Protocol.                     *)
EXTENDS TraceBase
P == INSTANCE Protocol
\* q: configuration, i: part, ph: what was announced last, tabs: tables of the parts,
\* bas, tot: numbers announced, dims, outs: matrices announced and delivered, labels: their blocks
VARIABLES q, i, ph, tabs, bas, tot, dims, outs, labels, err
vars == <<l, q, i, ph, tabs, bas, tot, dims, outs, labels, err>>
TInit == TrackInit /\ l = 1 /\ q = <<>> /\ i = 0 /\ ph = "new" /\ tabs = <<>> /\ bas = 0 /\ tot = 0 /\ dims = <<>> /\ outs = <<>> /\ labels = <<>> /\ err = FALSE
Reset == i' = 0 /\ ph' = "new" /\ tabs' = <<>> /\ bas' = 0 /\ tot' = 0 /\ dims' = <<>> /\ outs' = <<>> /\ labels' = <<>> /\ err' = FALSE
Start == IsEvent("Start") /\ q' = Ev.q /\ Reset
Parts == P!Parts(q)
Two == Parts[i] = 2
Count(s, x) == Cardinality({k \in 1 .. Len(s) : s[k] = x})
\* every announced matrix was delivered
Complete == ph = "mat" /\ Len(outs) = tot /\ Len(dims) = tot
            /\ \A k \in 1 .. tot : Count(dims, dims[k]) = Cardinality({x \in 1 .. tot : outs[x].dim = dims[k]})
Ready == IF i = 0 THEN ph = "new" ELSE Complete
Typ == /\ IsEvent("TYP") /\ Ready /\ i < Len(Parts) /\ Ev.n = Parts[i + 1]
       /\ i' = i + 1 /\ ph' = "typ" /\ dims' = <<>> /\ outs' = <<>> /\ labels' = <<>> /\ UNCHANGED <<q, tabs, bas, tot, err>>
Bas == IsEvent("BAS") /\ ph = "typ" /\ ph' = "bas" /\ bas' = Ev.n /\ UNCHANGED <<q, i, tabs, tot, dims, outs, labels, err>>
Sta == /\ IsEvent("STA") /\ ph = "bas"
       /\ IF Two THEN bas <= Len(Ev.rows) /\ P!TableTwo(q, Ev.rows, tabs[1], tabs[Len(tabs)])
          ELSE bas = Len(Ev.rows) /\ P!TableOne(q, Parts[i], Ev.rows)
       /\ tabs' = Append(tabs, Ev.rows) /\ ph' = "sta" /\ UNCHANGED <<q, i, bas, tot, dims, outs, labels, err>>
NBlocks == IF Two THEN Cardinality(P!Blocks(q, tabs[Len(tabs)])) ELSE 1
Steps == IF Two THEN P!StepsTwo(q) ELSE P!StepsOne(q)
Tot == IsEvent("TOT") /\ ph = "sta" /\ Ev.n = Steps * NBlocks /\ tot' = Ev.n /\ ph' = "mat" /\ UNCHANGED <<q, i, tabs, bas, dims, outs, labels, err>>
Dim == IsEvent("DIM") /\ ph = "mat" /\ Len(dims) < tot /\ dims' = Append(dims, Ev.n) /\ UNCHANGED <<q, i, ph, tabs, bas, tot, outs, labels, err>>
Out ==
  /\ IsEvent("OUT") /\ ph = "mat" /\ Ev.ok /\ Len(outs) < Len(dims)
  /\ Ev.i \in 1 .. tot /\ (\A k \in 1 .. Len(outs) : outs[k].i # Ev.i)
  /\ Ev.blocks = tot \div Steps /\ Ev.block \in 0 .. Ev.blocks - 1 /\ Ev.i = Ev.step * Ev.blocks + Ev.block + 1
  \* its dimension was announced, it is about the announced states
  /\ Count(dims, Ev.dim) > Cardinality({k \in 1 .. Len(outs) : outs[k].dim = Ev.dim})
  /\ Ev.rows = Len(tabs[Len(tabs)]) /\ Ev.diag /\ (Two \/ (Ev.dim = Ev.rows /\ Ev.orth))
  \* and stored with its circumstances
  /\ LET s == IF Two /\ P!StepsOne(q) = 1 THEN 0 ELSE Ev.step
         n == IF Two /\ P!StepsOne(q) = 1 THEN 1 ELSE Steps IN
     \A k \in 1 .. 6 : P!Close(Ev.f[k], P!At(q.fmin[k], q.fmax[k], s, n))
  /\ IF Two THEN /\ P!Close(Ev.r, P!At(q.rmin, q.rmax, Ev.step, Steps)) /\ Ev.sym \in P!Blocks(q, tabs[Len(tabs)])
                 \* the same block of every step, another block for another number
                 /\ \A k \in 1 .. Len(outs) : (outs[k].block = Ev.block) = (outs[k].sym = Ev.sym)
     ELSE TRUE
  /\ outs' = Append(outs, [i |-> Ev.i, dim |-> Ev.dim, block |-> Ev.block, sym |-> Ev.sym])
  /\ UNCHANGED <<q, i, ph, tabs, bas, tot, dims, labels, err>>
End == /\ IsEvent("END") /\ Ready /\ i = Len(Parts) /\ ph' = "end" /\ UNCHANGED <<q, i, tabs, bas, tot, dims, outs, labels, err>>
Err == IsEvent("ERR") /\ err' = TRUE /\ UNCHANGED <<q, i, ph, tabs, bas, tot, dims, outs, labels>>
\* (q stays: the same calculation may be done again)
Mirrorless == i > 0 /\ i = Len(Parts) /\ Two /\ P!Mirrorless(q, tabs[1], tabs[IF q.same THEN 1 ELSE 2])
Stop == /\ IsEvent("Stop")
        /\ IF P!Unusable(q) \/ Mirrorless THEN ph # "end" /\ Ev.end = "failed" /\ (err \/ Ev.said \/ Ev.told) ELSE ph = "end" /\ Ev.end = "ok" /\ ~err
        /\ Reset /\ UNCHANGED q
\* command lines: tokens are file names, options, and so on
RECURSIVE Parse(_, _)
Parse(a, o) ==
  IF a = <<>> THEN o
  ELSE IF a[1] = "help" THEN [o EXCEPT !.r = "help"]
  ELSE IF a[1] \notin {"c", "o", "t"} THEN [o EXCEPT !.r = "unknown"]
  ELSE IF Len(a) = 1 THEN [o EXCEPT !.r = "noarg"]
  ELSE Parse(SubSeq(a, 3, Len(a)), IF a[1] = "c" THEN [o EXCEPT !.c = a[2]] ELSE IF a[1] = "o" THEN [o EXCEPT !.o = a[2]] ELSE [o EXCEPT !.t = a[2]])
Verdict(a) ==
  LET o == Parse(a, [r |-> "", c |-> "", o |-> "", t |-> ""]) IN
  IF a = <<>> \/ o.r = "help" THEN "help"
  ELSE IF o.r = "unknown" THEN "usage"
  ELSE IF o.r # "" \/ o.t \notin {"real", "complex"} \/ o.o # "cache" THEN "error"
  ELSE IF o.c = "good" \/ (o.c = "ymix" /\ o.t = "complex") THEN "good" ELSE "error"
Cli == /\ IsEvent("Cli")
       /\ LET v == Verdict(Ev.a) IN
          CASE v = "help" -> Ev.end = "ok" /\ Ev.usage /\ ~Ev.fin /\ Ev.outs = 0
            [] v = "good" -> Ev.end = "ok" /\ Ev.fin /\ Ev.outs > 0
            [] v = "usage" -> Ev.end = "failed" /\ Ev.usage /\ ~Ev.fin /\ Ev.outs = 0
            [] OTHER -> Ev.end = "failed" /\ Ev.said /\ ~Ev.fin /\ Ev.outs = 0
       /\ UNCHANGED <<q, i, ph, tabs, bas, tot, dims, outs, labels, err>>
TNext == Start \/ Typ \/ Bas \/ Sta \/ Tot \/ Dim \/ Out \/ End \/ Err \/ Stop \/ Cli
TSpec == TInit /\ [][TNext]_vars
=============================================================================
