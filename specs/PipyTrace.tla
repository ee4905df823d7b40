------------------------------ MODULE PipyTrace ------------------------------
(* What the real Python back end announces, and the results behind it,       *)
(* against module Pipy. One cache directory per history, many calculations.  *)
EXTENDS TraceBase
P == INSTANCE Pipy
VARIABLES p, ph, blocks, nb, blk, left, head
vars == <<l, p, ph, blocks, nb, blk, left, head>>
\* ph: what may come next; blocks: those not yet announced, of nb; blk: the current one (its number, NoValue or its
\* symmetries); left: steps of it without result; head: size of its basis and names of its states
TInit == TrackInit /\ l = 1 /\ p = NoValue /\ ph = "idle" /\ blocks = {} /\ nb = 0 /\ blk = <<>> /\ left = {} /\ head = <<>>
Calc == /\ IsEvent("Calc") /\ ph = "idle" /\ p' = Ev.p /\ ph' = "typ" /\ blocks' = TLCEval(P!Blocks(Ev.p)) /\ nb' = Cardinality(blocks')
        /\ blk' = <<>> /\ left' = {} /\ head' = <<>>
Same == UNCHANGED <<p, blocks, nb, blk, left>>
Typ == IsEvent("Typ") /\ ph = "typ" /\ Ev.v = p.bid /\ ph' = "tot" /\ head' = head /\ Same
Tot == IsEvent("Tot") /\ ph = "tot" /\ Ev.v = P!Steps(p) * nb /\ ph' = "open" /\ head' = head /\ Same
\* between two blocks every step of the former one has its result
Bas == IsEvent("Bas") /\ ph = "open" /\ left = {} /\ head' = <<Ev.v>> /\ ph' = "sta" /\ Same
Sta == /\ IsEvent("Sta") /\ ph = "sta" /\ Ev.rows = head[1] /\ head' = <<head[1], Ev.names>> /\ ph' = "open"
       /\ left' = 0..(P!Steps(p) - 1) /\ blk' = <<>> /\ UNCHANGED <<p, blocks, nb>>
Dim == IsEvent("Dim") /\ ph = "open" /\ left # {} /\ Ev.v = head[1] /\ ph' = "out" /\ head' = head /\ Same
Out == /\ IsEvent("Out") /\ ph = "out" /\ Ev.step \in left /\ left' = left \ {Ev.step}
       /\ Ev.blocks = nb /\ Ev.block \in 0..(nb - 1) /\ Ev.tot = 1 + (Ev.step * Ev.blocks) + Ev.block
       /\ Ev.names = head[2] /\ Ev.num = head[1]
       /\ LET known == blk # <<>>
              cand == {b \in (IF known THEN {blk[2]} ELSE blocks) : Ev.sys = P!System(p, Ev.step, b)}
          IN \E b \in cand : /\ known => Ev.block = blk[1]
                             /\ blk' = <<Ev.block, b>> /\ blocks' = blocks \ {b}
       /\ Ev.num = P!Size(Ev.sys) /\ Ev.low = (2 * P!Lowest(Ev.sys)) - P!Zero(p)
       /\ ph' = "open" /\ UNCHANGED <<p, nb, head>>
\* blocks without states are not announced
End == /\ IsEvent("End") /\ ph = "open" /\ left = {} /\ \A b \in blocks : P!Size(P!System(p, 0, b)) = 0
       /\ ph' = "idle" /\ p' = NoValue /\ blocks' = {} /\ UNCHANGED <<nb, blk, left, head>>
\* a calculation that was killed while it wrote
Killed == IsEvent("Killed") /\ ph = "idle" /\ UNCHANGED <<p, ph, blocks, nb, blk, left, head>>
TNext == Calc \/ Typ \/ Tot \/ Bas \/ Sta \/ Dim \/ Out \/ End \/ Killed
TSpec == TInit /\ [][TNext]_vars
=============================================================================
