------------------------------- MODULE Denote -------------------------------
(***************************************************************************)
(* The exact meaning of every operation of the package, as functions on    *)
(* vectors and operators (module Linear).                                  *)
(***************************************************************************)
EXTENDS Linear

Sum(n, f(_)) ==   \* sum of f(0), .., f(n-1)
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i = n THEN acc ELSE go(i + 1, CAdd(acc, f(i)))
  IN go(0, Zero)

\* put bit i of b at position qs[i+1], for all i
RECURSIVE Deposit(_, _, _)
Deposit(b, qs, i) == IF i > Len(qs) THEN 0 ELSE Bit(b, i - 1) * 2^qs[i] + Deposit(b, qs, i + 1)
RECURSIVE QSeq(_, _, _)
QSeq(n, S, q) == IF q = n THEN <<>> ELSE (IF q \in S THEN <<q>> ELSE <<>>) \o QSeq(n, S, q + 1)

\* ---- single-qubit states, by the code of the package's BasisStates ----
OneQubit == <<  <<One, Zero>>, <<Zero, One>>, <<Sq, Sq>>, <<Sq, CNeg(Sq)>>,
                <<Sq, CMul(Im, Sq)>>, <<Sq, CMul(MIm, Sq)>> >>
RECURSIVE VProduct(_)     \* element 1 of the sequence is qubit 0
VProduct(s) == IF s = <<>> THEN <<One>> ELSE VKron(OneQubit[s[Len(s)] + 1], VProduct(SubSeq(s, 1, Len(s) - 1)))

\* ---- gates as 2x2 sequences ----
GI   == <<One, Zero, Zero, One>>
GX   == <<Zero, One, One, Zero>>
GY   == <<Zero, MIm, Im, Zero>>
GZ   == <<One, Zero, Zero, MOne>>
GH   == <<Sq, Sq, Sq, CNeg(Sq)>>
GS   == <<One, Zero, Zero, Im>>
GSd  == <<One, Zero, Zero, MIm>>
GT   == <<One, Zero, Zero, W1>>
GTd  == <<One, Zero, Zero, W7>>
GSX  == <<CMul(Half, CAdd(One, Im)), CMul(Half, CSub(One, Im)), CMul(Half, CSub(One, Im)), CMul(Half, CAdd(One, Im))>>
GSXd == <<CMul(Half, CSub(One, Im)), CMul(Half, CAdd(One, Im)), CMul(Half, CAdd(One, Im)), CMul(Half, CSub(One, Im))>>
GV   == <<Sq, CMul(MIm, Sq), CMul(MIm, Sq), Sq>>
GVd  == <<Sq, CMul(Im, Sq), CMul(Im, Sq), Sq>>
UGates == << GI, GX, GY, GZ, GH, GS, GSd, GT, GTd, GSX, GSXd, GV, GVd >>
\* not unitary: projectors, ladder operators, zero, shears, scaled, rank one, and dense ones
NGates == << <<One, Zero, Zero, Zero>>, <<Zero, Zero, Zero, One>>, <<Zero, One, Zero, Zero>>,
             <<Zero, Zero, One, Zero>>, <<Zero, Zero, Zero, Zero>>, <<One, One, Zero, One>>,
             <<One, Zero, Im, One>>, <<<<2,0,0,0,0>>, Zero, Zero, <<2,0,0,0,0>>>>,
             <<Half, Zero, Zero, Half>>, <<W1, Zero, Zero, W1>>, <<One, One, One, One>>,
             <<One, Im, MIm, One>>, <<Half, Sq, Sq, MOne>>, <<Im, One, One, <<0,0,2,0,0>>>>,
             <<MOne, Zero, Zero, MOne>>, <<<<2,0,0,0,0>>, W1, Zero, Half>> >>
AllGates == UGates \o NGates

\* ---- operators ----
MZeroOrScale(c, m) == TLCEval([i \in 1..Len(m) |-> CMul(c, m[i])])

\* partial trace over the set E of qubits of an operator on n qubits
PTrace(n, m, E) ==
  LET R  == QSeq(n, (0..(n-1)) \ E, 0)
      ES == QSeq(n, E, 0)
      k  == Len(R)
      K  == 2^k
      N  == 2^n
  IN TLCEval([i \in 1..(K*K) |->
       LET r == Deposit((i-1) \div K, R, 1)
           c == Deposit((i-1) % K, R, 1)
           f(e) == At(m, N, r + Deposit(e, ES, 1), c + Deposit(e, ES, 1))
       IN Sum(2^Len(ES), f)])

\* columns (rows if not regular) in which an ancillary qubit is one become zero
ReduceAnc(n, m, A, regular) ==
  LET N == 2^n IN
  TLCEval([i \in 1..(N*N) |->
     LET b == IF regular THEN (i-1) % N ELSE (i-1) \div N
     IN IF \E q \in A : Bit(b, q) = 1 THEN Zero ELSE m[i]])

\* rows (columns if not regular) that differ only in garbage qubits are merged into the one
\* in which these are zero
ReduceGarb(n, m, G, regular) ==
  LET N  == 2^n
      GS2 == QSeq(n, G, 0)
  IN TLCEval([i \in 1..(N*N) |->
     LET r == (i-1) \div N
         c == (i-1) % N
         b == IF regular THEN r ELSE c
         f(e) == IF regular THEN At(m, N, r + Deposit(e, GS2, 1), c) ELSE At(m, N, r, c + Deposit(e, GS2, 1))
     IN IF \E q \in G : Bit(b, q) = 1 THEN Zero ELSE Sum(2^Len(GS2), f)])
VReduceGarb(n, x, G) ==
  LET GS2 == QSeq(n, G, 0) IN
  TLCEval([i \in 1..2^n |->
     LET f(e) == x[i + Deposit(e, GS2, 1)]
     IN IF \E q \in G : Bit(i-1, q) = 1 THEN Zero ELSE Sum(2^Len(GS2), f)])

\* the domain of garbage reduction: among the entries that are merged into one, at most one is not zero
MergeOK(n, m, G, regular) ==
  LET N == 2^n
      GS2 == QSeq(n, G, 0)
  IN \A r, c \in 0..(N-1) : (\A q \in G : Bit(IF regular THEN r ELSE c, q) = 0) =>
       Cardinality({e \in 0..(2^Len(GS2) - 1) : (IF regular THEN At(m, N, r + Deposit(e, GS2, 1), c) ELSE At(m, N, r, c + Deposit(e, GS2, 1))) # Zero}) <= 1
VMergeOK(n, x, G) ==
  LET GS2 == QSeq(n, G, 0) IN
  \A i \in 1..2^n : (\A q \in G : Bit(i-1, q) = 0) =>
       Cardinality({e \in 0..(2^Len(GS2) - 1) : x[i + Deposit(e, GS2, 1)] # Zero}) <= 1

\* amplitudes (entries) on branch idx of qubit q become zero
VDelete(n, x, q, idx) == TLCEval([i \in 1..2^n |-> IF Bit(i-1, q) = idx THEN Zero ELSE x[i]])
MDelete(n, m, q, idx) ==
  LET N == 2^n IN
  TLCEval([i \in 1..(N*N) |->
     IF 2 * Bit((i-1) \div N, q) + Bit((i-1) % N, q) = idx THEN Zero ELSE m[i]])

\* projection of a state onto qubit q having value o, and its probability
VProject(n, x, q, o) == TLCEval([i \in 1..2^n |-> IF Bit(i-1, q) = o THEN x[i] ELSE Zero])
Prob(n, x, q, o)     == VNorm2(VProject(n, x, q, o))

\* K rho K^dagger
Conjugate(n, k, rho) == MMul(n, k, MMul(n, rho, MAdj(n, k)))

\* ---- classes of operators ----
IsHermitian(n, m) == m = MAdj(n, m)
IsUnitary(n, m)   == MMul(n, m, MAdj(n, m)) = MIdent(n)
IsUnit(c)         == CMag2(c) = One
\* one non-zero entry of magnitude one in every row and column
IsMonomial(n, m) ==
  LET N == 2^n IN
  /\ \A r \in 0..(N-1) : \E c \in 0..(N-1) :
       IsUnit(At(m, N, r, c)) /\ \A d \in 0..(N-1) : d # c => At(m, N, r, d) = Zero
  /\ \A c \in 0..(N-1) : \E r \in 0..(N-1) : At(m, N, r, c) # Zero
\* one non-zero amplitude, of magnitude one
IsBasisLike(x) == \E i \in 1..Len(x) : IsUnit(x[i]) /\ \A j \in 1..Len(x) : j # i => x[j] = Zero
IsScalarMultipleOfIdentity(n, m) == m[1] # Zero /\ m = MZeroOrScale(m[1], MIdent(n))
\* the verdict of the identity test on a non-zero operator: 1 for multiples of the identity, possibly with ancillary
\* qubits (the rows and columns in which such a qubit is one are zero); 0 if an entry off the diagonal is not zero, or
\* two entries on it are different and not zero; anything else is outside the domain of the test
IdVerdict(n, m) ==
  LET N == 2^n IN
  IF \E r, c \in 0..(N-1) : r # c /\ At(m, N, r, c) # Zero THEN 0
  ELSE IF \E r, c \in 0..(N-1) : At(m, N, r, r) # Zero /\ At(m, N, c, c) # Zero /\ At(m, N, r, r) # At(m, N, c, c) THEN 0
  ELSE LET A == {q \in 0..(n-1) : \A b \in 0..(N-1) : Bit(b, q) = 1 => At(m, N, b, b) = Zero}
       IN IF \A b \in 0..(N-1) : (At(m, N, b, b) = Zero) = (\E q \in A : Bit(b, q) = 1) THEN 1 ELSE 2

\* ---- 1/sqrt(p) for the probabilities that are powers of 1/2 ----
InvSqrtOK(p) == p \in {One, Half, <<1,0,0,0,2>>, <<1,0,0,0,3>>, <<1,0,0,0,4>>}
InvSqrt(p) == CASE p = One -> One
                [] p = Half -> Rt2
                [] p = <<1,0,0,0,2>> -> <<2,0,0,0,0>>
                [] p = <<1,0,0,0,3>> -> CMul(<<2,0,0,0,0>>, Rt2)
                [] p = <<1,0,0,0,4>> -> <<4,0,0,0,0>>

\* ---- numbers that stay small, far away from the numerical tolerance and from overflow ----
SmallC(c) == /\ c[5] <= 4
             /\ \A i \in 1..4 : c[i] <= 12 /\ c[i] >= -12
Small(x)  == \A i \in 1..Len(x) : SmallC(x[i])

\* ---- active nodes: the classes of proportional non-zero sub-functions over several roots ----
\* per level l, for roots given as sets of <<n, function>>
RECURSIVE SeqConcat(_)
SeqConcat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o SeqConcat(Tail(s))
VActive(roots, l) == Classes(SeqConcat([i \in 1..Len(roots) |->
                        IF roots[i].n > l THEN VSubs(roots[i].n, roots[i].x, l) ELSE <<>>]), {})
MActive(roots, l) == Classes(SeqConcat([i \in 1..Len(roots) |->
                        IF roots[i].n > l THEN MSubs(roots[i].n, roots[i].x, l) ELSE <<>>]), {})
=============================================================================
