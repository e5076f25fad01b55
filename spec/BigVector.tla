------------------------------ MODULE BigVector ------------------------------
(***************************************************************************)
(* A vector whose canonical diagram has very many nodes, given by an       *)
(* arithmetic formula; the behaviours build, export, store, transfer and   *)
(* read it.  (Its size is beyond what module DDPackage explores.)          *)
(***************************************************************************)
EXTENDS Linear, Json, CSV, IOUtils
CONSTANTS N, KindsB
VARIABLES hist, i
F(b) == CNorm(1 + ((b * 7919) % 1009), 0, ((b % 4099) * (b % 127)) % 977, 0, 0)
X == TLCEval([j \in 1..2^N |-> F(j - 1)])
Init == hist = << [k |-> "begin", n |-> 1, p |-> <<1, 2, 1, N, N>>], [k |-> "vvec", d |-> 1, n |-> N, r |-> X, z |-> 0] >> /\ i = 1
Next == /\ i <= Len(KindsB) /\ i' = i + 1
        /\ hist' = Append(hist, IF KindsB[i] = "vexport" THEN [k |-> "vexport", a |-> 1, n |-> N, e |-> X, z |-> 0]
                                ELSE [k |-> KindsB[i], a |-> 1, d |-> 2, n |-> N, r |-> X, z |-> 0, p |-> <<i % 2>>])
Spec == Init /\ [][Next]_<<hist, i>>
Emit == i <= Len(KindsB) \/ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUTFILE)
=============================================================================
