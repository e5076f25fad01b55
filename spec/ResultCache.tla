---------------------------- MODULE ResultCache ----------------------------
(***************************************************************************)
(* A result table.  `store' is what a table may answer: for each key the   *)
(* value most recently stored under exactly that key since the last clear. *)
(* `bucket' is a direct-mapped table as the package has them, with any     *)
(* assignment of keys to buckets: the invariant Refines says that whatever *)
(* the collisions, its answers are among those allowed.                    *)
(* Keys are sequences of integers (the components of the key).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization
CONSTANTS Keys,       \* the keys to use
          NVal,       \* values 1..NVal
          NBuck,      \* number of buckets of the concrete table
          KindsR, Depth, Exhaustive, Record
VARIABLES store, hash, bucket, hist
vars == <<store, hash, bucket, hist>>
Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
None == <<>>
Insert == \E key \in Pick(Keys) : \E v \in Pick(1..NVal) :
          /\ store' = [store EXCEPT ![key] = v]
          /\ bucket' = [bucket EXCEPT ![hash[key]] = <<key, v>>]
          /\ Log([k |-> "ins", p |-> key, a |-> v]) /\ UNCHANGED hash
\* after an insertion most lookups are for keys that were stored before
Known == {key \in Keys : store[key] # 0}
Lookup == \E key \in Pick(IF Known # {} /\ RandomElement(0..2) > 0 /\ ~Exhaustive THEN Known ELSE Keys) :
          /\ Log([k |-> "look", p |-> key, a |-> store[key]]) /\ UNCHANGED <<store, bucket, hash>>
Clear  == /\ store' = [key \in Keys |-> 0] /\ bucket' = [b \in 1..NBuck |-> None] /\ UNCHANGED hash
          /\ Log([k |-> "clear"])
Grow   == Log([k |-> "grow"]) /\ UNCHANGED <<store, bucket, hash>>
Do(k) == CASE k = "ins" -> Insert [] k = "look" -> Lookup [] k = "clear" -> Clear [] k = "grow" -> Grow
Init == /\ store = [key \in Keys |-> 0] /\ bucket = [b \in 1..NBuck |-> None]
        /\ hash \in (IF Exhaustive THEN [Keys -> 1..NBuck] ELSE {[key \in Keys |-> 1]})
        /\ hist = << [k |-> "begin"] >>
Next == Len(hist) <= Depth /\ \E i \in Pick(1..Len(KindsR)) : Do(KindsR[i])
Spec == Init /\ [][Next]_vars
Emit == ~Record \/ Len(hist) <= Depth \/ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUTFILE)
Answer(key) == LET e == bucket[hash[key]] IN IF e # None /\ e[1] = key THEN e[2] ELSE 0
Refines == \A key \in Keys : Answer(key) \in {0, store[key]}
=============================================================================
