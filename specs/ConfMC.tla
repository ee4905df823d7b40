------------------------------- MODULE ConfMC -------------------------------
(* Exhaustive exploration of the configuration specification, and all of its *)
(* histories of a given length as operations for the driver.                 *)
EXTENDS Conf, TLC, Json
MCVals == {[text |-> t, i |-> "any", u |-> "any", d |-> "any", f |-> "any"] : t \in {"x", "1.5"}}
CONSTANT MaxLen
VARIABLE h
GInit == Init /\ h = <<>>
S(x) == ToString(x)
GNext == /\ Len(h) < MaxLen
         /\ \/ \E c \in Confs, k \in Keys, v \in Vals : Put(c, k, v) /\ h' = Append(h, <<"put", S(c), k, v.text>>)
            \/ \E c \in Confs, k \in Keys : Touch(c, k) /\ h' = Append(h, <<"touch", S(c), k>>)
            \/ \E c, d \in Confs : c # d /\ Add(c, d) /\ h' = Append(h, <<"add", S(c), S(d)>>)
            \/ \E c, d \in Confs : c # d /\ Copy(c, d) /\ h' = Append(h, <<"copy", S(c), S(d)>>)
            \/ \E c \in Confs, p \in Files : Save(c, p) /\ h' = Append(h, <<"save", S(c), p>>)
            \/ \E c \in Confs, p \in Files : (Load(c, p, "ok") \/ Load(c, p, "refused"))
                                              /\ h' = Append(h, <<"load", S(c), p>>)
GSpec == GInit /\ [][GNext]_<<vars, h>>
Emit == Len(h) = MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson(h))
MCSpec == Init /\ h = <<>> /\ [][Next /\ UNCHANGED h]_<<vars, h>>
=============================================================================
