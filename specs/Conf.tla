-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Configurations: maps from keys to values, and files they are saved to.  *)
(* A value is a record: text (what is stored) and, for each numeric type,  *)
(* what reading it in that type gives: a number (as text), "bad" (refused) *)
(* or "any" (nothing is promised, e.g. a fraction read as an integer).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Confs, NoFile
VARIABLES conf, file
vars == <<conf, file>>
Empty == <<>>   \* a function with an empty domain
EmptyVal == [text |-> "", i |-> "bad", u |-> "bad", d |-> "bad", f |-> "bad"]
Over(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Merge(m, n) == [x \in DOMAIN m \cup DOMAIN n |-> IF x \in DOMAIN n THEN n[x] ELSE m[x]]
Texts(m) == [x \in DOMAIN m |-> m[x].text]

Init == conf = [c \in Confs |-> Empty] /\ file = <<>>
Put(c, k, v) == conf' = [conf EXCEPT ![c] = Over(@, k, v)] /\ UNCHANGED file
\* non-constant access to an absent key creates it with an empty value
Touch(c, k) == /\ conf' = [conf EXCEPT ![c] = IF k \in DOMAIN @ THEN @ ELSE Over(@, k, EmptyVal)]
               /\ UNCHANGED file
Add(c, d) == conf' = [conf EXCEPT ![c] = Merge(@, conf[d])] /\ UNCHANGED file
Copy(c, d) == conf' = [conf EXCEPT ![c] = conf[d]] /\ UNCHANGED file
Save(c, p) == file' = Over(file, p, conf[c]) /\ UNCHANGED conf
WriteFile(p, m) == file' = Over(file, p, m) /\ UNCHANGED conf
Load(c, p, o) ==
   IF p \in DOMAIN file /\ file[p] # NoFile
   THEN o = "ok" /\ conf' = [conf EXCEPT ![c] = Merge(@, file[p])] /\ UNCHANGED file
   ELSE o = "refused" /\ UNCHANGED vars
Read(c, k, type) == IF k \notin DOMAIN conf[c] THEN "absent"
                    ELSE CASE type = "s" -> conf[c][k].text
                           [] type = "i" -> conf[c][k].i
                           [] type = "u" -> conf[c][k].u
                           [] type = "d" -> conf[c][k].d
                           [] type = "f" -> conf[c][k].f
Equal(c, d) == Texts(conf[c]) = Texts(conf[d])

CONSTANTS Keys, Vals, Files
Next == \E c, d \in Confs, k \in Keys, p \in Files :
           \/ \E v \in Vals : Put(c, k, v)
           \/ Touch(c, k) \/ (c # d /\ Add(c, d)) \/ (c # d /\ Copy(c, d)) \/ Save(c, p)
           \/ Load(c, p, "ok") \/ Load(c, p, "refused")
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* Each step changes at most one configuration, and files only change by saving.
OneAtATime == [][Cardinality({c \in Confs : conf'[c] # conf[c]}) + (IF file' # file THEN 1 ELSE 0) <= 1]_vars
NeverShrinks == [][\A c \in Confs : \/ DOMAIN conf[c] \subseteq DOMAIN conf'[c]
                                    \/ \E d \in Confs : conf'[c] = conf[d]]_vars
LoadGivesSaved == [][\A c \in Confs, p \in DOMAIN file : Load(c, p, "ok") =>
                       \A k \in DOMAIN file[p] : conf'[c][k] = file[p][k]]_vars
=============================================================================
