----------------------------- MODULE NodeStore -----------------------------
(***************************************************************************)
(* The store of nodes.  A node is <<level, succ, weights>>, each successor *)
(* being a node of the level below or the terminal (0).  Users hold        *)
(* references; the count of a node is the number of references users hold  *)
(* plus the number of edges to it from nodes with a positive count.        *)
(* Collection removes exactly the nodes with count zero.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Randomization
CONSTANTS Arity, Levels, NWeights, MaxNodes, KindsS, Depth, Exhaustive, Record
VARIABLES node,     \* id -> [v |-> level, s |-> successors, w |-> weights (0: zero edge)]
          user,     \* id -> references held by users (Inf: saturated)
          nextid, cap, hist
vars == <<node, user, nextid, cap, hist>>
Inf == 1000000
Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
Present == DOMAIN node
Log(r) == hist' = IF Record THEN Append(hist, r) ELSE hist

\* counts, from the highest level down: user references plus edges from counted nodes
RECURSIVE CountsFrom(_, _, _, _)
Edges(nd, i) == Cardinality({j \in 1..Arity : nd.w[j] # 0 /\ nd.s[j] = i})
CountsFrom(nd, us, l, acc) ==
  IF l < 0 THEN acc
  ELSE LET here == {i \in DOMAIN nd : nd[i].v = l}
           above == {i \in DOMAIN acc : acc[i] > 0 /\ nd[i].v = l + 1}
           RECURSIVE sum(_, _)
           sum(S, i) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Edges(nd[x], i) + sum(S \ {x}, i)
       IN CountsFrom(nd, us, l - 1, acc @@ [i \in here |-> IF us[i] = Inf THEN Inf ELSE us[i] + sum(above, i)])
Counts(nd, us) == CountsFrom(nd, us, Levels - 1, <<>>)
ActiveAt(c, nd, l) == Cardinality({i \in DOMAIN nd : nd[i].v = l /\ c[i] > 0})
\* what the implementation has to show after every step
Obs(nd, us) == LET c == TLCEval(Counts(nd, us)) IN
   [n |-> Cardinality(DOMAIN nd), c |-> [l \in 1..Levels |-> ActiveAt(c, nd, l - 1)],
    q |-> LET RECURSIVE go(_, _)
              go(S, acc) == IF S = {} THEN acc ELSE LET i == CHOOSE x \in S : TRUE IN go(S \ {i}, acc \o <<i, c[i]>>)
          IN go(DOMAIN nd, <<>>)]
Rec(r, nd, us) == r @@ Obs(nd, us)
Candidates(l) == {i \in Present : node[i].v = l - 1} \cup (IF l = 0 THEN {0} ELSE {})
Choice(l) == IF Exhaustive THEN [s : [1..Arity -> Candidates(l)], w : [1..Arity -> 0..NWeights]]
             ELSE LET f == RandomElement({TRUE, FALSE}) IN
                  {[s |-> [j \in 1..Arity |-> RandomElement(Candidates(l))], w |-> [j \in 1..Arity |-> IF f /\ j > 1 THEN 1 ELSE RandomElement(0..NWeights)]]}
Norm(ch) == [s |-> [j \in 1..Arity |-> IF ch.w[j] = 0 THEN 0 ELSE ch.s[j]], w |-> ch.w]
Same(r) == {i \in Present : node[i] = r}
MakeWith(keep, l) ==
  IF Candidates(l) = {} THEN UNCHANGED vars ELSE
  \E ch \in Choice(l) : LET m == Norm(ch) r == [v |-> l, s |-> m.s, w |-> m.w] IN
  IF \A j \in 1..Arity : m.w[j] = 0 THEN UNCHANGED vars
  ELSE IF Same(r) # {} THEN
       LET i == CHOOSE x \in Same(r) : TRUE IN
       /\ Log(Rec([k |-> "node", a |-> i, b |-> keep, z |-> 0, d |-> l, p |-> m.s \o m.w], node, user)) /\ UNCHANGED <<node, user, nextid, cap>>
  ELSE IF Cardinality(Present) >= MaxNodes THEN UNCHANGED vars
  ELSE LET i == IF Record THEN nextid ELSE CHOOSE x \in 1..MaxNodes : x \notin Present IN
       /\ node' = node @@ (i :> r) /\ user' = user @@ (i :> 0) /\ nextid' = IF Record THEN nextid + 1 ELSE nextid
       /\ Log(Rec([k |-> "node", a |-> i, b |-> keep, z |-> 1, d |-> l, p |-> m.s \o m.w], node', user')) /\ UNCHANGED cap
Make == \E l \in Pick(0..(cap-1)) : \E keep \in Pick(0..1) : MakeWith(keep, l)
Ref == Present # {} /\ \E i \in Pick(Present) :
       /\ user' = [user EXCEPT ![i] = IF @ = Inf THEN Inf ELSE @ + 1] /\ UNCHANGED <<node, nextid, cap>>
       /\ Log(Rec([k |-> "ref", a |-> i], node, user'))
Unref == {i \in Present : user[i] > 0} # {} /\ \E i \in Pick({i \in Present : user[i] > 0}) :
       /\ user' = [user EXCEPT ![i] = IF @ = Inf THEN Inf ELSE @ - 1] /\ UNCHANGED <<node, nextid, cap>>
       /\ Log(Rec([k |-> "unref", a |-> i], node, user'))
BadUnref == LET c == Counts(node, user) B == {i \in Present : c[i] = 0} IN B # {} /\ \E i \in Pick(B) :
       /\ Log(Rec([k |-> "badunref", a |-> i], node, user)) /\ UNCHANGED <<node, user, nextid, cap>>
Sat == Present # {} /\ \E i \in Pick({x \in Present : user[x] # Inf}) :
       /\ user' = [user EXCEPT ![i] = Inf] /\ UNCHANGED <<node, nextid, cap>>
       /\ Log(Rec([k |-> "sat", a |-> i], node, user'))
GC(k) == LET c == TLCEval(Counts(node, user)) live == {i \in Present : c[i] > 0} IN
       /\ node' = [i \in live |-> node[i]] /\ user' = [i \in live |-> user[i]] /\ UNCHANGED <<nextid, cap>>
       /\ Log(Rec([k |-> k, z |-> Cardinality(Present) - Cardinality(live)], node', user'))
Clear == /\ node' = <<>> /\ user' = <<>> /\ UNCHANGED <<nextid, cap>> /\ Log(Rec([k |-> "clear"], node', user'))
Grow == cap < Levels /\ cap' = cap + 1 /\ UNCHANGED <<node, user, nextid>> /\ Log(Rec([k |-> "grow", a |-> cap + 1], node, user))
Do(k) == CASE k = "node" -> Make [] k = "ref" -> Ref [] k = "unref" -> Unref [] k = "badunref" -> BadUnref [] k = "sat" -> Sat
           [] k = "gc" -> GC("gc") [] k = "agc" -> GC("agc") [] k = "clear" -> Clear [] k = "grow" -> Grow
Init == /\ node = <<>> /\ user = <<>> /\ nextid = 1 /\ cap \in (IF Exhaustive THEN {Levels} ELSE 1..Levels)
        /\ hist = << [k |-> "begin", n |-> cap, p |-> <<Levels, Arity>>] >>
Can(k) == CASE k = "ref" -> Present # {} [] k = "unref" -> {i \in Present : user[i] > 0} # {}
            [] k = "badunref" -> (LET c == Counts(node, user) IN {i \in Present : c[i] = 0} # {})
            [] k = "sat" -> {i \in Present : user[i] # Inf} # {} [] k = "grow" -> cap < Levels [] OTHER -> TRUE
Next == Len(hist) <= Depth /\ \E i \in Pick(1..Len(KindsS)) : IF Can(KindsS[i]) THEN Do(KindsS[i]) ELSE MakeWith(0, 0)
Spec == Init /\ [][Next]_vars
Emit == ~Record \/ Len(hist) <= Depth \/ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUTFILE)
\* no dangling edges, no duplicates; what a user holds keeps everything below it
NoDangling == \A i \in Present : \A j \in 1..Arity : node[i].w[j] # 0 => (node[i].v = 0 \/ node[i].s[j] \in Present)
UniqueOK == \A i, k \in Present : node[i] = node[k] => i = k
HeldBelow == LET c == Counts(node, user) IN \A i \in Present : c[i] > 0 => \A j \in 1..Arity : (node[i].w[j] # 0 /\ node[i].v > 0) => c[node[i].s[j]] > 0
Bound == \A i \in Present : user[i] <= 2 \/ user[i] = Inf
=============================================================================
