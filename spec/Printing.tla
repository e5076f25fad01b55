------------------------------ MODULE Printing ------------------------------
(***************************************************************************)
(* The numbers that are recognised when printed: a/b, a/(b sqrt 2) and     *)
(* a pi/b in lowest terms.  Enumerated completely within the bounds; a     *)
(* record <<form, a, b>> per part (form -1: the part is zero).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Dens,      \* denominators
          Nums,      \* numerators
          Parts,     \* "one": a single part, "two": real and imaginary part, "mix": both, one of them out of two numbers
          PDens, PNums
VARIABLE r
RECURSIVE GCD(_, _)
GCD(x, y) == IF y = 0 THEN x ELSE GCD(y, x % y)
Forms == {0, 1, 2}
Atoms(D, N) == {<<f, a, b>> : f \in Forms, a \in N, b \in D}
Reduced(x) == GCD(x[2], x[3]) = 1
Init == IF Parts = "one"
        THEN r \in {<<x, s, j>> : x \in {y \in Atoms(Dens, Nums) : Reduced(y)}, s \in {1, -1}, j \in {0, 1}}
        ELSE IF Parts = "mix"      \* any number beside one of a few
        THEN r \in {<<x, y, s, j>> : x \in {<<0, 1, 4>>, <<1, -1, 3>>}, y \in {z \in Atoms(Dens, Nums) : Reduced(z)}, s \in {1, -1}, j \in {0, 1}}
        ELSE r \in {<<x, y, s, t>> : x \in {z \in Atoms(PDens, PNums) : Reduced(z)}, y \in {z \in Atoms(PDens, PNums) : Reduced(z)}, s \in {1, -1}, t \in {1, -1}}
Spec == Init /\ [][UNCHANGED r]_r
Rec == IF Parts = "one"
       THEN [k |-> "print", p |-> IF r[3] = 0 THEN <<r[1][1], r[2] * r[1][2], r[1][3], -1, 0, 1>> ELSE <<-1, 0, 1, r[1][1], r[2] * r[1][2], r[1][3]>>]
       ELSE IF Parts = "mix"
       THEN [k |-> "print", p |-> IF r[4] = 0 THEN r[1] \o <<r[2][1], r[3] * r[2][2], r[2][3]>> ELSE <<r[2][1], r[3] * r[2][2], r[2][3]>> \o r[1]]
       ELSE [k |-> "print", p |-> <<r[1][1], r[3] * r[1][2], r[1][3], r[2][1], r[4] * r[2][2], r[2][3]>>]
Emit == CSVWrite("%1$s", <<ToJson(<<Rec>>)>>, IOEnv.OUTFILE)
=============================================================================
