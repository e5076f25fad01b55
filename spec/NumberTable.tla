----------------------------- MODULE NumberTable -----------------------------
(***************************************************************************)
(* The store of real numbers.  A number is <<base, offset>>: bases lie far *)
(* apart (further than the tolerance), offsets are counted in a unit of    *)
(* which the tolerance is exactly T.  Bases 0, 1, 2 stand for 0, 1 and     *)
(* sqrt(1/2), which are fixed; base 3 is 1/2, which is stored from the     *)
(* beginning and never removed.  The other bases are placed by the harness *)
(* exactly on the borders of buckets, inside of buckets and above one.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization

CONSTANTS T, Bases, Offs, KindsN, Depth, Exhaustive, Record
VARIABLES stored,   \* the numbers in the store
          refs,     \* how often each of them is referenced (Inf: for ever)
          hist
vars == <<stored, refs, hist>>
Inf == 1000000
Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
\* the sign of the number that is looked up, and whether it is a real or an imaginary part
Flag == IF Exhaustive THEN {0} ELSE {RandomElement(0..1)}
Abs(i) == IF i < 0 THEN -i ELSE i
Near(x, y) == x[1] = y[1] /\ Abs(x[2] - y[2]) <= T
Fixed == {<<0, 0>>, <<1, 0>>, <<2, 0>>}
HalfN == <<3, 0>>
Values == {x \in Bases \X Offs : x[1] = 0 => x[2] >= 0}
FixedOf(x) == {y \in Fixed : Near(x, y)}
Matches(x) == {y \in stored : Near(x, y)}
SeqOf(S) == LET RECURSIVE go(_, _)
                go(R, acc) == IF R = {} THEN acc ELSE LET y == CHOOSE z \in R : TRUE IN go(R \ {y}, acc \o y)
            IN go(S, <<>>)
Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
Put(S) == stored' = S /\ refs' = [y \in S |-> IF y \in stored THEN refs[y] ELSE 0]

\* the answer lies in q; what is stored afterwards does not depend on which one it is
Lookup == \E x \in Pick(Values) : \E neg \in Flag : \E part \in Flag :
  IF FixedOf(x) # {} THEN
       /\ Log([k |-> "look", p |-> x, q |-> SeqOf(FixedOf(x)), a |-> neg, b |-> part, n |-> Cardinality(stored), z |-> 0])
       /\ UNCHANGED <<stored, refs>>
  ELSE IF Matches(x) # {} THEN
       /\ Log([k |-> "look", p |-> x, q |-> SeqOf(Matches(x)), a |-> neg, b |-> part, n |-> Cardinality(stored), z |-> 0])
       /\ UNCHANGED <<stored, refs>>
  ELSE /\ Put(stored \cup {x})
       /\ Log([k |-> "look", p |-> x, q |-> x, a |-> neg, b |-> part, n |-> Cardinality(stored) + 1, z |-> 1])
Ref   == \E y \in Pick(stored) : \E neg \in Flag :
         /\ refs' = [refs EXCEPT ![y] = IF @ = Inf THEN Inf ELSE @ + 1]
         /\ Log([k |-> "ref", p |-> y, a |-> neg, n |-> refs'[y]]) /\ UNCHANGED stored
Unref == \E y \in Pick(stored) : \E neg \in Flag :
         IF refs[y] = 0 THEN Log([k |-> "badunref", p |-> y, a |-> neg]) /\ UNCHANGED <<stored, refs>>
         ELSE IF y = HalfN /\ refs[y] = 1 THEN UNCHANGED <<stored, refs, hist>>
         ELSE /\ refs' = [refs EXCEPT ![y] = IF @ = Inf THEN Inf ELSE @ - 1]
              /\ Log([k |-> "unref", p |-> y, a |-> neg, n |-> refs'[y]]) /\ UNCHANGED stored
Sat   == \E y \in Pick(stored) : IF y = HalfN THEN UNCHANGED vars ELSE
         /\ refs' = [refs EXCEPT ![y] = Inf]
         /\ Log([k |-> "sat", p |-> y, a |-> 0]) /\ UNCHANGED stored
\* references to the fixed numbers are not counted
RefFixed == \E y \in Pick(Fixed) : Log([k |-> "reffixed", p |-> y, a |-> 0]) /\ UNCHANGED <<stored, refs>>
GC(k) == LET gone == {y \in stored : refs[y] = 0} IN
         /\ Put(stored \ gone)
         /\ Log([k |-> k, n |-> Cardinality(stored \ gone), z |-> Cardinality(gone), q |-> SeqOf(gone)])
Clear == /\ stored' = {HalfN} /\ refs' = (HalfN :> 1) /\ Log([k |-> "clear", n |-> 1])
Do(k) == CASE k = "look" -> Lookup [] k = "ref" -> Ref [] k = "unref" -> Unref [] k = "sat" -> Sat
           [] k = "reffixed" -> RefFixed [] k = "gc" -> GC("gc") [] k = "agc" -> GC("agc") [] k = "clear" -> Clear
Init == /\ stored = {HalfN} /\ refs = (HalfN :> 1)
        /\ hist = << [k |-> "begin", n |-> T] >>
Next == Len(hist) <= Depth /\ \E i \in Pick(1..Len(KindsN)) : Do(KindsN[i])
Spec == Init /\ [][Next]_vars
Emit == ~Record \/ Len(hist) <= Depth \/ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUTFILE)

\* the guarantees: pairwise further apart than the tolerance, nothing next to a fixed number, 1/2 always there
Separated == /\ \A x, y \in stored : Near(x, y) => x = y
             /\ \A x \in stored : FixedOf(x) = {}
HalfStays == HalfN \in stored /\ refs[HalfN] >= 1
\* looking up a stored number finds itself or one nearer than the tolerance; it never adds
Found == \A x \in stored : x \in Matches(x)
Bound == \A y \in stored : refs[y] <= 2 \/ refs[y] = Inf
=============================================================================
