------------------------------- MODULE CliGen -------------------------------
(* Random command lines: mostly the usual one with something changed.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxLen
VARIABLES a, n
vars == <<a, n>>
R(S) == RandomElement(S)
Pick(s) == s[R(1 .. Len(s) + 0 * n)]
Val(o) == CASE o = "c" -> Pick(<<"good", "good", "good", "ymix", "absent", "broken", "nokey", "text", "twosp", "zero", "odd">>)
            [] o = "o" -> Pick(<<"cache", "cache", "cache", "cache", "nodir">>)
            [] o = "t" -> Pick(<<"real", "complex", "real", "complex", "Real", "float", "">>)
Usual == LET p == Pick(<<<<"c", "o", "t">>, <<"t", "o", "c">>, <<"o", "c", "t">>, <<"c", "o">>, <<"c", "t">>, <<"o", "t">>, <<"c", "o", "t">>, <<"c", "o", "t">>>>) IN
         <<p[1], Val(p[1])>> \o <<p[2], Val(p[2])>> \o (IF Len(p) > 2 THEN <<p[3], Val(p[3])>> ELSE <<>>)
Ins(s, k, x) == SubSeq(s, 1, k) \o x \o SubSeq(s, k + 1, Len(s))
Change(s) == LET w == R(1 .. 9 + 0 * n) IN
  CASE w = 1 -> Ins(s, R(0 .. Len(s)), <<"help">>)
    [] w = 2 -> Ins(s, R(0 .. Len(s)), <<Pick(<<"bogus", "cc", "empty">>)>>)
    [] w = 3 -> SubSeq(s, 1, R(0 .. Len(s)))
    [] w = 4 -> s \o Pick(<<<<"c">>, <<"o">>, <<"t">>, <<"t", "complex">>, <<"c", "good">>>>)
    [] OTHER -> s
Init == a = <<>> /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E u \in {Usual} : \E c \in {Change(u)} : a' = c
Spec == Init /\ [][Next]_vars
Emit == n > 0 => PrintT("@@BEHAVIOUR@@" \o ToJson(a))
=============================================================================
