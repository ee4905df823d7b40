------------------------------ MODULE CacheGen ------------------------------
(* All sequential histories of the cache specification up to a length: TLC  *)
(* walks Cache!Spec with one thread and prints each complete history.       *)
EXTENDS Cache, TLC, Json
CONSTANT MaxLen
VARIABLE h
GInit == Init /\ h = <<>>
Op2(o) == IF o.op = "clear" THEN "c" ELSE IF o.op = "save" THEN "s " \o ToString(o.k)
          ELSE "r " \o ToString(o.k)
GNext == \E o \in Ops : /\ Len(h) < MaxLen
                        /\ store' = Effect(o).s /\ UNCHANGED pend
                        /\ h' = Append(h, Op2(o))
GSpec == GInit /\ [][GNext]_<<vars, h>>
Emit == Len(h) = MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson(h))
=============================================================================
