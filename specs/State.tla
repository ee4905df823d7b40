------------------------------- MODULE State -------------------------------
(***************************************************************************)
(* One-atom states. A Rydberg state is [k |-> "R", sp |-> characters of    *)
(* the species, q |-> <<n, l, 2j, 2m>>]; an artificial state is            *)
(* [k |-> "A", sp |-> characters of the label, q |-> <<0, 0, 0, 0>>].      *)
(* ARB in a quantum number is a wildcard.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT ARB
Digit(c) == c >= 48 /\ c <= 57
LastDigit(sp) == Len(sp) > 0 /\ Digit(sp[Len(sp)])
Element(s) == IF LastDigit(s.sp) THEN SubSeq(s.sp, 1, Len(s.sp) - 1) ELSE s.sp
TwiceSpin(s) == IF LastDigit(s.sp) THEN s.sp[Len(s.sp)] - 49 ELSE 1
Artificial(s) == s.k = "A"
Generalized(s) == s.k = "R" /\ \E i \in 1 .. 4 : s.q[i] = ARB \/ s.q[i] = 2 * ARB
\* lexicographic order of sequences
SeqLt(a, b) == \E i \in 1 .. Len(b) :
    /\ i <= Len(a) + 1 /\ \A m \in 1 .. i - 1 : a[m] = b[m]
    /\ (i = Len(a) + 1 \/ a[i] < b[i])
Key(s) == <<s.sp, s.q>>
Eq(a, b) == Key(a) = Key(b)
Lt(a, b) == SeqLt(a.sp, b.sp) \/ (a.sp = b.sp /\ SeqLt(a.q, b.q))
Wild(i, v) == IF i < 3 THEN v = ARB ELSE v = 2 * ARB   \* j and m are counted in halves
Match(a, b) == a.sp = b.sp /\ \A i \in 1 .. 4 : Wild(i, b.q[i]) \/ a.q[i] = b.q[i]
Reflected(s) == [s EXCEPT !.q[4] = -@]
\* pairs of states
Eq2(a, b) == Eq(a[1], b[1]) /\ Eq(a[2], b[2])
Lt2(a, b) == Lt(a[1], b[1]) \/ (Eq(a[1], b[1]) /\ Lt(a[2], b[2]))
Match2(a, b) == Match(a[1], b[1]) /\ Match(a[2], b[2])
\* the engine's own state types: quantum numbers only
OldEq(a, b) == a.q = b.q
OldLt(a, b) == SeqLt(a.q, b.q)
OldMatch(a, b) == \A i \in 1 .. 4 : Wild(i, b.q[i]) \/ a.q[i] = b.q[i]
OldEq2(a, b) == OldEq(a[1], b[1]) /\ OldEq(a[2], b[2])
OldLt2(a, b) == OldLt(a[1], b[1]) \/ (OldEq(a[1], b[1]) /\ OldLt(a[2], b[2]))
OldMatch2(a, b) == OldMatch(a[1], b[1]) /\ OldMatch(a[2], b[2])
\* text
Half(x) == IF x % 2 = 0 THEN ToString(x \div 2) ELSE "?"
MomentumLabel(x) == IF x < 7 THEN <<"S", "P", "D", "F", "G", "H", "I">>[x + 1] ELSE ToString(x)
Text(s, spstr) == IF Artificial(s) THEN "|" \o spstr \o ">"
   ELSE "|" \o spstr \o ", " \o ToString(s.q[1]) \o " " \o MomentumLabel(s.q[2]) \o "_" \o
        (IF s.q[3] % 2 = 0 THEN ToString(s.q[3] \div 2) \o ", mj=" \o ToString(s.q[4] \div 2)
         ELSE ToString(s.q[3]) \o "/2, mj=" \o ToString(s.q[4]) \o "/2") \o ">"
=============================================================================
