---------------------------- MODULE NodeRequests -----------------------------
(***************************************************************************)
(* Diagrams with weights of very different magnitude.  A weight that is    *)
(* negligible relative to the other weights of its node (below the         *)
(* tolerance of the number table) counts as zero, and a zero weight never   *)
(* carries a node.  State: a pool of diagrams, each given by its exact     *)
(* entries in path order (the entry reached by branching first at the      *)
(* highest qubit).  Actions: a node is requested with arbitrary successors *)
(* and weights; sums, products and Kronecker products of scaled diagrams.  *)
(*                                                                         *)
(* Numbers are i^k * 3^a * 2^e, written <<k, a, e>>: exact, closed under    *)
(* multiplication.  Sums are only formed where at most one term remains or *)
(* both terms are equal or opposite.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Arity,    \* 2: vectors, 4: operators
          Levels,   \* number of qubits
          K,        \* size of the pool (and of the pool of operators used in products)
          KindsQ, Depth
VARIABLES pool, ops, hist
vars == <<pool, ops, hist>>

Z == <<0, 0, -9999>>
One == <<0, 0, 0>>
BAD == <<9, 9, 9>>
IsZ(x) == x = Z
Mul(x, y) == IF IsZ(x) \/ IsZ(y) THEN Z ELSE <<(x[1] + y[1]) % 4, x[2] + y[2], x[3] + y[3]>>
Add(x, y) == IF x = BAD \/ y = BAD THEN BAD ELSE IF IsZ(x) THEN y ELSE IF IsZ(y) THEN x
             ELSE IF x = y THEN <<x[1], x[2], x[3] + 1>>
             ELSE IF x[2] = y[2] /\ x[3] = y[3] /\ (x[1] + 2) % 4 = y[1] THEN Z ELSE BAD
\* a thousand times the binary logarithm of the magnitude
Mag(x) == IF IsZ(x) THEN -9999000 ELSE 1585 * x[2] + 1000 * x[3]
The(S) == CHOOSE r \in S : TRUE     \* of a set with one element; binds strictly, which keeps TLC from recomputing
Max(S0) == The({CHOOSE m \in S : \A k \in S : k <= m : S \in {S0}})
Size(ar, n) == ar^n
BMax(b0) == The({Max({Mag(b[i]) : i \in 1..Len(b)}) : b \in {b0}})
Zeros(k) == [i \in 1..k |-> Z]
IsZero(b) == \A i \in 1..Len(b) : IsZ(b[i])
Sub(ar, n, x, i) == LET s == Size(ar, n - 1) IN SubSeq(x, i * s + 1, (i + 1) * s)     \* i-th block, 0-based
Cat(ar, f0) == The({TLCEval([j \in 1..(ar * Len(f[0])) |-> f[(j - 1) \div Len(f[0])][((j - 1) % Len(f[0])) + 1]]) : f \in {f0}})
Scale(w, x) == [i \in 1..Len(x) |-> Mul(w, x[i])]

VANISH == -44500   \* relative magnitude below which a block certainly vanishes
KEEP   == -30000   \* and above which it is certainly kept

\* what remains of x (a record: the entries x, their largest magnitude m, and whether no relative magnitude at any
\* node is near the border between vanishing and staying)
RECURSIVE Norm(_, _, _)
Norm(ar, n, x) ==
  IF n = 0 THEN The({[x |-> y, m |-> Mag(y[1]), ok |-> y[1] # BAD] : y \in {x}}) ELSE
  The({ The({[x |-> Cat(ar, [i \in 0..(ar - 1) |-> IF f[i].m - m <= VANISH THEN Zeros(Len(f[i].x)) ELSE f[i].x]),
              m |-> m,
              ok |-> \A i \in 0..(ar - 1) : f[i].ok /\ (f[i].m <= -9000000 \/ f[i].m - m <= VANISH \/ f[i].m - m >= KEEP)]
             : m \in {Max({f[i].m : i \in 0..(ar - 1)})}})
        : f \in UNION {{TLCEval([i \in 0..(ar - 1) |-> Norm(ar, n - 1, Sub(ar, n, y, i))])} : y \in {x}} })
Round(ar, n, x) == Norm(ar, n, x).x
\* admissible result: unambiguous, and in the range in which absolute tolerances do not matter
Fine(r) == /\ r.ok
           /\ IsZero(r.x) \/ (r.m >= -20000 /\ r.m <= 6000)
           /\ \A i \in 1..Len(r.x) : IsZ(r.x[i]) \/ (Mag(r.x[i]) >= -38000 /\ r.x[i][2] \in 0..4)

Pick(S) == {RandomElement(S)}
Slots == 1..K
Of(n) == {s \in Slots : pool[s].n = n}
Log(r) == hist' = Append(hist, r)
Nop == UNCHANGED <<pool, ops>> /\ Log([k |-> "nop"])
\* a result; one that vanishes is not kept
Put(d, ar, n, x, rec) ==
  \E q \in {Norm(ar, n, x)} :
  IF ~Fine(q) THEN Nop ELSE
  /\ Log(rec @@ [d |-> d, n |-> n, r |-> q.x])
  /\ pool' = IF IsZero(q.x) THEN pool ELSE [pool EXCEPT ![d] = [n |-> n, x |-> q.x]]
  /\ UNCHANGED ops

\* a weight that brings a block of magnitude m to the class c: 0 zero, 1 negligible, 2 dominating, 3 ordinary
Weight(c, m) == CASE c = 0 -> Z
                  [] c = 1 -> <<RandomElement(0..3), 0, RandomElement(-41..-40) - (m \div 1000)>>
                  [] c = 2 -> <<RandomElement(0..3), 0, RandomElement(4..5) - (m \div 1000)>>
                  [] OTHER -> <<RandomElement(0..3), RandomElement({0, 0, 0, 1}), RandomElement(-4..3) - (m \div 1000)>>
Classes == << <<3, 3, 3, 0>>, <<0, 1, 2>>, <<0, 3>>, <<1, 2>>, <<1, 2, 3>>, <<0, 1, 1, 2, 3>> >>

NodeOp ==
  \E l \in Pick({l \in 0..(Levels - 1) : l = 0 \/ Of(l) # {}}) : \E d \in Pick(Slots) :
  \E cls \in {Classes[RandomElement(1..Len(Classes))]} :
  \E ch \in {[i \in 1..Arity |-> IF l = 0 THEN 1 ELSE RandomElement(Of(l))]} :
  \E w \in {[i \in 1..Arity |-> Weight(cls[RandomElement(1..Len(cls))], IF l = 0 THEN 0 ELSE BMax(pool[ch[i]].x))]} :
  \E x \in {Cat(Arity, TLCEval([i \in 0..(Arity - 1) |-> Scale(w[i + 1], IF l = 0 THEN <<One>> ELSE pool[ch[i + 1]].x)]))} :
  Put(d, Arity, l + 1, x, [k |-> "node", c |-> ch, g |-> w])

Factor(m) == Weight(RandomElement({1, 2, 3, 3, 3, 3}), m)
AddOp ==
  \E a \in Pick(Slots) : \E b \in Pick(Of(pool[a].n)) : \E d \in Pick(Slots) :
  \E f \in {Factor(BMax(pool[a].x))} : \E g \in {RandomElement({f, Factor(BMax(pool[b].x))})} :
  Put(d, Arity, pool[a].n, TLCEval([i \in 1..Len(pool[a].x) |-> Add(Mul(f, pool[a].x[i]), Mul(g, pool[b].x[i]))]),
      [k |-> "add", a |-> a, b |-> b, g |-> <<f, g>>])

\* operators for products: diagonal and permuting ones, entries in path order
RECURSIVE MulT(_, _, _, _)
MulT(ar, n, A, X) ==
  IF n = 0 THEN <<Mul(A[1], X[1])>> ELSE
  LET cols == ar \div 2 IN
  The({ Cat(ar, TLCEval([i \in 0..(ar - 1) |->
          TLCEval([j \in 1..ar^(n - 1) |-> Add(P[<<i \div cols, i % cols, 0>>][j], P[<<i \div cols, i % cols, 1>>][j])])]))
        : P \in UNION { { TLCEval([t \in (0..1) \X (0..(cols - 1)) \X (0..1) |->
                            MulT(ar, n - 1, Sub(4, n, Y[1], 2 * t[1] + t[3]), Sub(ar, n, Y[2], cols * t[3] + t[2]))]) }
                        : Y \in {<<A, X>>} } })
MonoFactor == The({
  CASE c = 1 -> <<One, Z, Z, One>>
    [] c = 2 -> <<Z, One, One, Z>>
    [] c = 3 -> <<One, Z, Z, <<RandomElement(0..3), 0, RandomElement(-3..0)>>>>
    [] OTHER -> <<Z, <<RandomElement(0..3), RandomElement(0..1), -1>>, One, Z>>
  : c \in {RandomElement({1, 2, 3, 4})}})
RECURSIVE MonoOf(_)
MonoOf(n) == IF n = 0 THEN <<One>> ELSE
  The({ IF RandomElement(1..3) = 1 /\ t[1] # Z
     THEN Cat(4, TLCEval([i \in 0..3 |-> IF i = 0 THEN s ELSE IF i = 3 THEN Scale(t[4], MonoOf(n - 1)) ELSE Zeros(4^(n - 1))]))
     ELSE Cat(4, TLCEval([i \in 0..3 |-> Scale(t[i + 1], s)])) : t \in {MonoFactor}, s \in {MonoOf(n - 1)} })
OpOp == \E n \in Pick(1..Levels) : \E d \in Pick(Slots) : \E m \in {MonoOf(n)} :
        /\ ops' = [ops EXCEPT ![d] = [n |-> n, x |-> m]] /\ UNCHANGED pool
        /\ Log([k |-> "op", d |-> d, n |-> n, r |-> m])
OpsOf(n) == {s \in Slots : ops[s].n = n}
\* the relative size of every remaining entry, without the weights of the operands
\* weights for the operands of a product: c = 1: both are fine by themselves, but the product is negligible
Two(c, ma, mb) == IF c = 1 THEN <<<<0, 0, -24 - (ma \div 1000)>>, <<1, 0, -24 - (mb \div 1000)>>>>
                  ELSE The({<<<<RandomElement(0..3), 0, e>>, <<0, 0, -e>>>> : e \in {RandomElement(-2..2)}})
MulOp ==
  \E b \in Pick(Slots) : IF OpsOf(pool[b].n) = {} THEN Nop ELSE
  \E a \in Pick(OpsOf(pool[b].n)) : \E d \in Pick(Slots) :
  \E c \in Pick({1, 2, 2, 2}) : \E fg \in {Two(c, BMax(ops[a].x), BMax(pool[b].x))} :
  \E x \in {MulT(Arity, pool[b].n, ops[a].x, pool[b].x)} :
  \E lim \in {BMax(ops[a].x) + BMax(pool[b].x) - 36000} :
  IF \E i \in 1..Len(x) : x[i] = BAD \/ (~IsZ(x[i]) /\ Mag(x[i]) < lim) THEN Nop ELSE
  IF IsZero(x) \/ (c = 1 /\ BMax(x) + Mag(fg[1]) + Mag(fg[2]) > VANISH) THEN Nop ELSE
  Put(d, Arity, pool[b].n, IF c = 1 THEN Zeros(Len(x)) ELSE Scale(Mul(fg[1], fg[2]), x), [k |-> "mul", a |-> a, b |-> b, g |-> fg])
KronT(x, y) == [j \in 1..(Len(x) * Len(y)) |-> Mul(x[((j - 1) \div Len(y)) + 1], y[((j - 1) % Len(y)) + 1])]
KronOp ==
  \E a \in Pick(Slots) : LET B == {s \in Slots : pool[s].n + pool[a].n <= Levels} IN IF B = {} THEN Nop ELSE
  \E b \in Pick(B) : \E d \in Pick(Slots) : \E c \in Pick({1, 2, 2, 2}) : \E fg \in {Two(c, BMax(pool[a].x), BMax(pool[b].x))} :
  \E x \in {KronT(pool[a].x, pool[b].x)} :
  Put(d, Arity, pool[a].n + pool[b].n, IF c = 1 THEN Zeros(Len(x)) ELSE Scale(Mul(fg[1], fg[2]), x), [k |-> "kron", a |-> a, b |-> b, g |-> fg])
\* a collection: whatever is in the pool stays as it is
GcOp == UNCHANGED <<pool, ops>> /\ Log([k |-> "gc"])

Do(kind) == CASE kind = "node" -> NodeOp [] kind = "add" -> AddOp [] kind = "op" -> OpOp
              [] kind = "mul" -> MulOp [] kind = "kron" -> KronOp [] kind = "gc" -> GcOp
Basis(n) == [i \in 1..Size(Arity, n) |-> IF i = 1 THEN One ELSE Z]
Ident(n) == [j \in 1..4^n |-> LET RECURSIVE dg(_, _)
                                  dg(q, l) == IF l = 0 THEN TRUE ELSE (q % 4) \in {0, 3} /\ dg(q \div 4, l - 1)
                              IN IF dg(j - 1, n) THEN One ELSE Z]
Init == /\ pool = [s \in Slots |-> LET n == ((s - 1) % Levels) + 1 IN [n |-> n, x |-> Basis(n)]]
        /\ ops = [s \in Slots |-> LET n == ((s - 1) % Levels) + 1 IN [n |-> n, x |-> Ident(n)]]
        /\ hist = << [k |-> "begin", n |-> Levels, p |-> <<Arity, K>>] >>
Next == /\ Len(hist) <= Depth
        /\ \E i \in Pick(1..Len(KindsQ)) : Do(KindsQ[i])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) <= Depth \/ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUTFILE)
\* what is kept is in normal form: rounding it again changes nothing
Stable == \A s \in Slots : Round(Arity, pool[s].n, pool[s].x) = pool[s].x /\ ~IsZero(pool[s].x)
=============================================================================
