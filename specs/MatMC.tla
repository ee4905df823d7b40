------------------------------- MODULE MatMC -------------------------------
(* Laws of the matrix operations over all small matrices, and random       *)
(* histories for the driver.                                               *)
EXTENDS Mat, TLC, Json, Randomization
CONSTANTS MaxLen, Slots
VARIABLES a, b, sl, h, cplx
vars == <<a, b, sl, h, cplx>>
Vals == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
Mats(nb, nc) == [nb : {nb}, nc : {nc}, e : [1 .. nb -> [1 .. nb -> Vals]], b : [1 .. nc -> [1 .. nb -> {<<0, 0>>, <<1, 0>>}]],
                 pe : {<<>>}, pb : {<<>>}]
Init == a \in Mats(2, 2) /\ b \in {x \in Mats(2, 1) : x.e[1][2] = Z /\ x.e[2][1] = Z} /\ sl = <<>> /\ h = <<>> /\ cplx = TRUE
Spec == Init /\ [][FALSE]_vars
PlusMinus == Minus(Plus(a, b), b) = a /\ Plus(a, b).e = Plus(b, a).e
TimesDistributes == Times(Plus(a, b), <<0, 2>>) = Plus(Times(a, <<0, 2>>), Times(b, <<0, 2>>))
PickAll == Block(a, <<0, 1>>) = a /\ Cutoff(a, 100) = a
PickTwice == Block(Block(a, <<1, 0>>), <<1, 0>>) = a
HermitianKept == Hermitian(a) => Hermitian(Block(a, <<1, 0>>)) /\ Hermitian(Cutoff(a, 1))
   /\ Hermitian(ChangeBasis(a, b.b \o b.b, 2)) /\ Hermitian(Times(a, <<3, 0>>))
RemoveTwice == LET m == RemoveVectors(a, All(2)) IN RemoveVectors(m, All(2)) = m
FoundThenRemoved == LET f == Found(a, <<FALSE, FALSE>>) IN
   Found(RemoveStates(a, f), All(Cardinality({i \in 1 .. 2 : f[i]}))) = All(Cardinality({i \in 1 .. 2 : f[i]}))
SameBasis == a.b = <<<<<<1, 0>>, Z>>, <<Z, <<1, 0>>>>>> => ChangeBasis(a, a.b, 2) = a

\* ---- random histories
R(S) == RandomElement(S)
Num == IF cplx /\ R(1 .. 3) = 1 THEN <<R(-2 .. 2), R(-2 .. 2)>> ELSE <<R(-2 .. 3), 0>>
Trip(nr, nc) == [r |-> R(0 .. nr - 1), c |-> R(0 .. nc - 1), v |-> Num]
Mask(n) == [i \in 1 .. n |-> R({TRUE, FALSE, TRUE})]
Rec(o, d, x, y, args) == [o |-> o, d |-> d, a |-> x, b |-> y, x |-> args]
Log(rec) == h' = Append(h, rec)
GInit == a = 0 /\ b = 0 /\ sl = [s \in Slots |-> Empty] /\ h = <<>> /\ cplx \in BOOLEAN
\* one step is one operation of a kind drawn first; where it is not possible the slot is filled anew
Fill(d, n) == \E nb \in {IF n > 0 THEN n ELSE R({0, 1, 2, 2, 3, 3, 4})} : \E nc \in {R({0, 1, 2, 3, 3, 4})} :
  \E ke \in {R(0 .. 8)}, kb \in {R(0 .. 8)} :
  \E te \in {[i \in 1 .. (IF nb = 0 THEN 0 ELSE ke) |-> Trip(nb, nb)]} :
  \E tb \in {[i \in 1 .. (IF nb * nc = 0 THEN 0 ELSE kb) |-> Trip(nc, nb)]} :
     /\ sl' = [sl EXCEPT ![d] = Compress([Empty EXCEPT !.pe = te, !.pb = tb], nb, nc)]
     /\ Log(Rec("Fill", d, d, d, [nb |-> nb, nc |-> nc, te |-> te, tb |-> tb]))
\* the operation with result m, unless its numbers become too large
Op(o, d, x, y, args, m) == IF (m.nb > 4 \/ m.nc > 4 \/ ~MaxAbs(m)) THEN Fill(d, 0)
                           ELSE sl' = [sl EXCEPT ![d] = m] /\ Log(Rec(o, d, x, y, args))
Bin(o, d, x, y) == IF sl[x].nb # sl[y].nb \/ sl[x].nb = 0 THEN Fill(y, sl[x].nb)
   ELSE CASE o = "Plus" -> Op(o, d, x, y, 0, Plus(sl[x], sl[y]))
          [] o = "Minus" -> Op(o, d, x, y, 0, Minus(sl[x], sl[y]))
          [] o = "Inc" -> Op(o, x, x, y, 0, Plus(sl[x], sl[y]))
          [] o = "Dec" -> Op(o, x, x, y, 0, Minus(sl[x], sl[y]))
Scale(o, d, x) == \E s \in {Num} : LET f == IF o = "TimesD" THEN <<s[1], 0>> ELSE s IN
                     Op(o, d, x, x, f, Times(sl[x], f))
Comp(d) == \E nb \in {R(2 .. 3)}, nc \in {R(2 .. 4)} :
   IF CanCompress(sl[d], nb, nc) THEN Op("Comp", d, d, d, [nb |-> nb, nc |-> nc], Compress(sl[d], nb, nc)) ELSE Fill(d, 0)
Adds(o, d) == \E t \in {Trip(3, 3)} :
   Op(o, d, d, d, t, IF o = "AddE" THEN AddEntry(sl[d], t) ELSE AddBasis(sl[d], t))
Un(o, d, x) == CASE o = "Abs" -> IF AbsOk(sl[x]) THEN Op(o, d, x, x, 0, Abs(sl[x])) ELSE Fill(x, 0)
                 [] o \in {"Copy", "Sub"} -> Op(o, d, x, x, 0, sl[x])
                 [] o = "Store" -> Op(o, d, x, x, 0, Stored(sl[x]))
Blk(d, x) == \E k \in {R(0 .. sl[x].nb)} :
   \E idx \in {IF sl[x].nb = 0 THEN <<>> ELSE
               LET S == RandomSubset(k, 0 .. sl[x].nb - 1) IN
               LET q == SelectSeq(Numbers(sl[x].nb), LAMBDA i : i \in S) IN
               IF R(BOOLEAN) THEN q ELSE [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]} :
      IF sl[x].nb = 0 THEN Fill(x, 0) ELSE Op("Block", d, x, x, idx, Block(sl[x], idx))
Chg(d, x) == \E k \in {R(0 .. 3)} : \E nbas \in {[i \in 1 .. sl[x].nc |-> [j \in 1 .. k |->
        IF R(1 .. 2) = 1 THEN Z ELSE Num]]} :
      IF sl[x].nc = 0 THEN Fill(x, 0) ELSE Op("Change", d, x, x, [k |-> k, m |-> nbas], ChangeBasis(sl[x], nbas, k))
InPlace(o, d) == CASE o = "Cutoff" -> \E c \in {R(0 .. 4)} : Op(o, d, d, d, c, Cutoff(sl[d], c))
              [] o = "RmVec" -> \E m \in {Mask(sl[d].nc)} : Op(o, d, d, d, m, RemoveVectors(sl[d], m))
              [] o = "RmVec0" -> Op(o, d, d, d, 0, RemoveVectors(sl[d], All(sl[d].nc)))
              [] o = "RmSt" -> \E m \in {Mask(sl[d].nc)} : Op(o, d, d, d, m, RemoveStates(sl[d], m))
              [] o = "Find" -> \E m \in {[i \in 1 .. sl[d].nc |-> FALSE]} : Op(o, d, d, d, m, sl[d])
Kinds == {"Fill", "Fill2", "Plus", "Minus", "Inc", "Dec", "TimesL", "TimesR", "TimesD", "AddE", "AddE2", "AddB", "AddB2",
          "Comp", "Copy", "Sub", "Abs", "Store", "Block", "Change", "Change2", "Cutoff", "RmVec", "RmVec0", "RmSt", "Find"}
GNext == /\ Len(h) < MaxLen /\ UNCHANGED <<a, b, cplx>>
         /\ \E k \in {IF Len(h) < 3 THEN "Fill" ELSE R(Kinds)} :
            \E d \in {IF Len(h) < 3 THEN Len(h) + 1 ELSE R(Slots)}, x \in {R(Slots)}, y \in {R(Slots)} :
              CASE k \in {"Fill", "Fill2"} -> Fill(d, 0)
                [] k \in {"Plus", "Minus", "Inc", "Dec"} -> Bin(k, d, x, y)
                [] k \in {"TimesL", "TimesR", "TimesD"} -> Scale(k, d, x)
                [] k \in {"AddE", "AddE2"} -> Adds("AddE", d)
                [] k \in {"AddB", "AddB2"} -> Adds("AddB", d)
                [] k = "Comp" -> Comp(d)
                [] k \in {"Copy", "Sub", "Abs", "Store"} -> Un(k, d, x)
                [] k = "Block" -> Blk(d, x)
                [] k \in {"Change", "Change2"} -> Chg(d, x)
                [] OTHER -> InPlace(k, d)
GSpec == GInit /\ [][GNext]_vars
Emit == Len(h) >= MaxLen => PrintT("@@BEHAVIOUR@@" \o ToJson([c |-> cplx, h |-> h]))
=============================================================================
