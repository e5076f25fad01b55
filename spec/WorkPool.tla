------------------------------ MODULE WorkPool ------------------------------
(***************************************************************************)
(* Working numbers: handed out, returned, temporaries.  The state is the   *)
(* set of numbers in use with the value written to each.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization
CONSTANTS MaxHeld, KindsW, Depth, Exhaustive, Record
VARIABLES held,    \* ids in use
          val,     \* id -> what its owner wrote
          next,    \* next id
          hist
vars == <<held, val, next, hist>>
Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
Free == CHOOSE i \in 0..MaxHeld : i \notin held
Get  == /\ Cardinality(held) < MaxHeld
        /\ LET i == Free IN held' = held \cup {i} /\ val' = [j \in held \cup {i} |-> IF j = i THEN next ELSE val[j]]
                            /\ Log([k |-> "get", a |-> i, b |-> next, n |-> Cardinality(held) + 1])
        /\ next' = IF Record THEN next + 1 ELSE 1 - next
Temp == /\ Log([k |-> "temp", b |-> next, n |-> Cardinality(held)]) /\ UNCHANGED <<held, val>>
        /\ next' = IF Record THEN next + 1 ELSE next
Put  == held # {} /\ \E i \in Pick(held) :
        /\ held' = held \ {i} /\ val' = [j \in held' |-> val[j]] /\ UNCHANGED next
        /\ Log([k |-> "put", a |-> i, n |-> Cardinality(held) - 1])
Write == held # {} /\ \E i \in Pick(held) :
        /\ val' = [val EXCEPT ![i] = next] /\ UNCHANGED held
        /\ Log([k |-> "write", a |-> i, b |-> next, n |-> Cardinality(held)])
        /\ next' = IF Record THEN next + 1 ELSE 1 - next
Clear == /\ held' = {} /\ val' = <<>> /\ UNCHANGED next /\ Log([k |-> "clear", n |-> 0])
Do(k) == CASE k = "get" -> Get [] k = "temp" -> Temp [] k = "put" -> Put [] k = "write" -> Write [] k = "clear" -> Clear
Can(k) == CASE k = "get" -> Cardinality(held) < MaxHeld [] k \in {"put", "write"} -> held # {} [] OTHER -> TRUE
Init == held = {} /\ val = <<>> /\ next = 0 /\ hist = << [k |-> "begin"] >>
Next == Len(hist) <= Depth /\ \E i \in Pick(1..Len(KindsW)) :
        IF Can(KindsW[i]) THEN Do(KindsW[i]) ELSE Temp
Spec == Init /\ [][Next]_vars
Emit == ~Record \/ Len(hist) <= Depth \/ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUTFILE)
TypeOK == DOMAIN val = held /\ Cardinality(held) <= MaxHeld
=============================================================================
