-------------------------------- MODULE Arith --------------------------------
(***************************************************************************)
(* Arithmetic on the package's complex numbers.  K registers hold either a *)
(* number of the table (`t', may carry sign marks, immutable) or a working *)
(* number (`w').  Every operation may take its operands negated and/or     *)
(* conjugated (which only sets marks, the memory is shared) and may write  *)
(* its result over an operand.  Values are exact (module Cyclo).           *)
(***************************************************************************)
EXTENDS Cyclo, Json, CSV, IOUtils, Randomization
CONSTANTS K, KindsA, Depth, Exhaustive, Values
VARIABLES reg, hist
vars == <<reg, hist>>
Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
R == 1..K
W == {i \in R : reg[i].t = "w"}
Mods == 0..3      \* bit 0: negated, bit 1: conjugated
Apply(m, x) == LET y == IF m % 2 = 1 THEN CNeg(x) ELSE x IN IF m >= 2 THEN CConj(y) ELSE y
Val(i, m) == Apply(m, reg[i].x)
SmallC(c) == c[5] <= 4 /\ \A i \in 1..4 : c[i] <= 40 /\ c[i] >= -40
Log(r) == hist' = Append(hist, r)
Set(d, t, x) == reg' = [reg EXCEPT ![d] = [t |-> t, x |-> x]]
Keep == UNCHANGED reg
\* d: destination, a/b: operands, p: their marks, s: the exact result
Look == \E d \in Pick(R) : \E x \in Pick(Values) : \E v \in Pick(0..3) :
        Set(d, "t", x) /\ Log([k |-> "look", d |-> d, s |-> x, a |-> v])
Work == \E d \in Pick(R) : \E x \in Pick(Values) : \E v \in Pick(0..3) :
        Set(d, "w", x) /\ Log([k |-> "work", d |-> d, s |-> x, a |-> v])
\* a table number equal to any number, through the marks it carries
Store == \E d \in Pick(R) : \E a \in Pick(R) : \E m \in Pick(Mods) :
        Set(d, "t", Val(a, m)) /\ Log([k |-> "store", d |-> d, a |-> a, p |-> <<m>>, s |-> Val(a, m)])
\* marks only: the result is a table number of its own
Mark == \E d \in Pick(R) : \E a \in Pick({i \in R : reg[i].t = "t"}) : \E m \in Pick(Mods) :
        Set(d, "t", Val(a, m)) /\ Log([k |-> "mark", d |-> d, a |-> a, p |-> <<m>>, s |-> Val(a, m)])
Bin(op, f(_, _)) ==
        \E d \in Pick(W) : \E a \in Pick(R) : \E b \in Pick(R) : \E ma \in Pick(Mods) : \E mb \in Pick(Mods) :
        LET x == f(Val(a, ma), Val(b, mb)) IN
        IF ~SmallC(x) THEN UNCHANGED vars
        ELSE Set(d, "w", x) /\ Log([k |-> op, d |-> d, a |-> a, b |-> b, p |-> <<ma, mb>>, s |-> x])
\* the same with a new working number for the result
BinNew(op, f(_, _)) ==
        \E d \in Pick(R) : \E a \in Pick(R) : \E b \in Pick(R) : \E ma \in Pick(Mods) : \E mb \in Pick(Mods) :
        LET x == f(Val(a, ma), Val(b, mb)) IN
        IF ~SmallC(x) THEN UNCHANGED vars
        ELSE Set(d, "w", x) /\ Log([k |-> op, d |-> d, a |-> a, b |-> b, p |-> <<ma, mb>>, s |-> x])
\* division stays exact where the divisor's squared magnitude is a power of two (times 1, 2, 4, 8)
Log2 == [n \in {1, 2, 4, 8, 16} |-> CHOOSE j \in 0..4 : 2^j = n]
Divides(b) == LET m == CMag2(b) IN m[2] = 0 /\ m[3] = 0 /\ m[4] = 0 /\ m[1] \in DOMAIN Log2
Quot(a, b) == LET m == CMag2(b) IN CMul(CMul(a, CConj(b)), CNorm(2^m[5], 0, 0, 0, Log2[m[1]]))
DivBy(op, D) == \E d \in Pick(D) : \E a \in Pick(R) : \E b \in Pick(R) : \E ma \in Pick(Mods) : \E mb \in Pick(Mods) :
        IF reg[b].x = Zero THEN UNCHANGED vars
        ELSE IF Divides(reg[b].x) /\ SmallC(Quot(Val(a, ma), Val(b, mb)))
        THEN Set(d, "w", Quot(Val(a, ma), Val(b, mb)))
             /\ Log([k |-> op, d |-> d, a |-> a, b |-> b, p |-> <<ma, mb>>, s |-> Quot(Val(a, ma), Val(b, mb))])
        ELSE \* numerator and (real) denominator; the result is not kept
             Keep /\ Log([k |-> op \o "x", a |-> a, b |-> b, p |-> <<ma, mb>>, t |-> IF op = "div" THEN d ELSE 0,
                          s |-> CMul(Val(a, ma), CConj(Val(b, mb))), s2 |-> CMag2(Val(b, mb))])
\* magnitude, phase, predicates and comparisons
Query == \E a \in Pick(R) : \E b \in Pick(R) : \E ma \in Pick(Mods) : \E mb \in Pick(Mods) :
        LET x == Val(a, ma)
            y == Val(b, mb) IN
        Keep /\ Log([k |-> "query", a |-> a, b |-> b, p |-> <<ma, mb>>, s |-> x, s2 |-> CMag2(x),
                     q |-> <<IF x = Zero THEN 1 ELSE 0, IF x = One THEN 1 ELSE 0, IF x = y THEN 1 ELSE 0,
                             IF reg[a].t = "t" THEN 1 ELSE 0, IF reg[b].t = "t" THEN 1 ELSE 0>>])
\* printed in every form and read back; as explicit values
Show == \E a \in Pick(R) : \E m \in Pick(Mods) : Keep /\ Log([k |-> "show", a |-> a, p |-> <<m>>, s |-> Val(a, m)])
Value == \E a \in Pick(R) : \E b \in Pick(R) : \E ma \in Pick(Mods) : \E mb \in Pick(Mods) :
        LET x == Val(a, ma)
            y == Val(b, mb) IN
        Keep /\ Log([k |-> "value", a |-> a, b |-> b, p |-> <<ma, mb>>, s |-> CAdd(x, y),
                     q |-> <<IF x = Zero THEN 1 ELSE 0, IF x = One THEN 1 ELSE 0, IF x = y THEN 1 ELSE 0>>])
Temp == \E x \in Pick(Values) : \E v \in Pick(0..1) : Keep /\ Log([k |-> "temp", s |-> x, a |-> v])
Free == \E d \in Pick(W) : Set(d, "t", Zero) /\ Log([k |-> "free", d |-> d, s |-> Zero])
Do(k) == CASE k = "look" -> Look [] k = "work" -> Work [] k = "store" -> Store [] k = "mark" -> Mark
           [] k = "add" -> Bin("add", CAdd) [] k = "sub" -> Bin("sub", CSub) [] k = "mul" -> Bin("mul", CMul)
           [] k = "addn" -> BinNew("addn", CAdd) [] k = "subn" -> BinNew("subn", CSub) [] k = "muln" -> BinNew("muln", CMul)
           [] k = "div" -> DivBy("div", W) [] k = "divn" -> DivBy("divn", R)
           [] k = "query" -> Query [] k = "show" -> Show [] k = "value" -> Value [] k = "temp" -> Temp [] k = "free" -> Free
Can(k) == /\ (k \in {"add", "sub", "mul", "div", "free"}) => W # {}
          /\ (k = "mark") => \E i \in R : reg[i].t = "t"
Init == /\ reg = [i \in R |-> [t |-> "t", x |-> Zero]]
        /\ hist = << [k |-> "begin", n |-> K] >>
Next == Len(hist) <= Depth /\ \E i \in Pick({j \in 1..Len(KindsA) : Can(KindsA[j])}) : Do(KindsA[i])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) <= Depth \/ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUTFILE)
\* the values are a field as far as they reach: what is multiplied can be divided again
FieldOK == \A i, j \in R : (Divides(reg[j].x) /\ SmallC(CMul(reg[i].x, reg[j].x))) => Quot(CMul(reg[i].x, reg[j].x), reg[j].x) = reg[i].x
=============================================================================
