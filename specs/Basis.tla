------------------------------- MODULE Basis -------------------------------
(***************************************************************************)
(* One-atom and pair bases of spin-1/2 atoms. A one-atom state is          *)
(* <<n, l, 2j, 2m>>. A basis is a sequence of numbered states.             *)
(* Settings: start state(s) and the largest distances dn, dl, dj, dm, a    *)
(* negative dl, dj or dm meaning no restriction.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Abs(x) == IF x < 0 THEN -x ELSE x
Within(a, b, d) == d < 0 \/ Abs(a - b) <= d
Allowed(s, c) ==
   UNION {UNION {UNION {{<<n, l, j, m>> : m \in {x \in -j .. j : (x + j) % 2 = 0
                                                    /\ Within(x, s[4], IF c.dm < 0 THEN -1 ELSE 2 * c.dm)}}
                        : j \in {x \in {2 * l - 1, 2 * l + 1} : x > 0
                                    /\ Within(x, s[3], IF c.dj < 0 THEN -1 ELSE 2 * c.dj)}}
                 : l \in {x \in 0 .. n - 1 : Within(x, s[2], c.dl)}}
          : n \in {x \in 1 .. s[1] + c.dn : Abs(x - s[1]) <= c.dn}}
AllowedAny(ss, c) == UNION {Allowed(s, c) : s \in ss}
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]

\* A basis as observed: sequence of [i |-> number, s |-> state]
IsBasisOf(B, S) == /\ Len(B) = Cardinality(S)
                   /\ {B[k].s : k \in 1 .. Len(B)} = S
                   /\ \A k \in 1 .. Len(B) - 1 : Lt(B[k].s, B[k + 1].s)
Numbered(B) == {B[k].i : k \in 1 .. Len(B)} = 0 .. Len(B) - 1
InOrder(B) == \A k \in 1 .. Len(B) : B[k].i = k - 1
\* Removing: keep is the set of numbers kept; survivors keep their order and are renumbered.
Kept(B, keep) == SelectSeq(B, LAMBDA x : x.i \in keep)
Renumber(B) == [k \in 1 .. Len(B) |-> [B[k] EXCEPT !.i = k - 1]]
Removed(B, keep) == Renumber(Kept(B, keep))
\* The product of two bases, by position: the number of a pair tells its constituents.
Product(A, B) == [k \in 1 .. Len(A) * Len(B) |->
   [i |-> k - 1, s |-> A[((k - 1) \div Len(B)) + 1].s \o B[((k - 1) % Len(B)) + 1].s]]
\* One-atom states that occur in a pair basis
Parts(B, w) == {SubSeq(B[k].s, 4 * w - 3, 4 * w) : k \in 1 .. Len(B)}
=============================================================================
