------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* Exact linear algebra over Cyclo: what decision diagrams denote.         *)
(* A vector of n qubits is a sequence of 2^n values; index b+1 holds the   *)
(* amplitude of basis state b, bit q of b being the value of qubit q.      *)
(* An operator is the row-major sequence of its 4^n entries.               *)
(***************************************************************************)
EXTENDS Cyclo

Bit(b, q) == (b \div 2^q) % 2
SetBit(b, q, v) == b + (v - Bit(b, q)) * 2^q

\* ---- vectors ----
VZero(n)        == [i \in 1..2^n |-> Zero]
VBasis(n, b)    == [i \in 1..2^n |-> IF i = b + 1 THEN One ELSE Zero]
VScale(c, x)    == TLCEval([i \in 1..Len(x) |-> CMul(c, x[i])])
VAdd(x, y)      == TLCEval([i \in 1..Len(x) |-> CAdd(x[i], y[i])])
VInner(x, y)    == CSum([i \in 1..Len(x) |-> CMul(CConj(x[i]), y[i])])
VNorm2(x)       == VInner(x, x)
VKron(x, y)     == TLCEval([i \in 1..(Len(x) * Len(y)) |->
                      CMul(x[((i - 1) \div Len(y)) + 1], y[((i - 1) % Len(y)) + 1])])
IsZeroV(x)      == \A i \in 1..Len(x) : x[i] = Zero

\* ---- operators (row-major, N x N) ----
At(m, N, r, c)  == m[r * N + c + 1]
MZero(n)        == [i \in 1..4^n |-> Zero]
MIdent(n)       == LET N == 2^n IN TLCEval([i \in 1..(N*N) |-> IF ((i-1) \div N) = ((i-1) % N) THEN One ELSE Zero])
MMul(n, a, b)   == LET N == 2^n IN
                   TLCEval([i \in 1..(N*N) |->
                      LET r == (i-1) \div N
                          c == (i-1) % N
                      IN CSum([k \in 1..N |-> CMul(a[r*N + k], b[(k-1)*N + c + 1])])])
MVec(n, a, x)   == LET N == 2^n IN
                   TLCEval([r \in 1..N |-> CSum([k \in 1..N |-> CMul(a[(r-1)*N + k], x[k])])])
MTrans(n, a)    == LET N == 2^n IN TLCEval([i \in 1..(N*N) |-> At(a, N, (i-1) % N, (i-1) \div N)])
MAdj(n, a)      == LET N == 2^n IN TLCEval([i \in 1..(N*N) |-> CConj(At(a, N, (i-1) % N, (i-1) \div N))])
MKron(na, a, nb, b) ==
  LET A == 2^na
      B == 2^nb
      N == A * B
  IN TLCEval([i \in 1..(N*N) |->
       LET r == (i-1) \div N
           c == (i-1) % N
       IN CMul(At(a, A, r \div B, c \div B), At(b, B, r % B, c % B))])
MTraceVal(n, a) == LET N == 2^n IN CSum([r \in 1..N |-> At(a, N, r-1, r-1)])

\* rank-one operator |x><x|
VOuter(x) == LET N == Len(x) IN
  TLCEval([i \in 1..(N*N) |-> CMul(x[((i-1) \div N) + 1], CConj(x[((i-1) % N) + 1]))])

\* operator of the 2x2 matrix g (sequence of 4 values) on qubit t controlled by the
\* set ctl of <<qubit, positive?>>, on n qubits
CtlOK(ctl, b) == \A q \in ctl : Bit(b, q[1]) = (IF q[2] THEN 1 ELSE 0)
Gate(n, g, t, ctl) ==
  LET N == 2^n IN
  TLCEval([i \in 1..(N*N) |->
     LET r == (i-1) \div N
         c == (i-1) % N
     IN IF CtlOK(ctl, SetBit(c, t, 0)) /\ CtlOK(ctl, SetBit(r, t, 0))
        THEN IF SetBit(r, t, 0) = SetBit(c, t, 0) THEN g[2 * Bit(r, t) + Bit(c, t) + 1] ELSE Zero
        ELSE IF r = c THEN One ELSE Zero])
\* the same applied to a vector
GateVec(n, g, t, ctl, x) ==
  TLCEval([i \in 1..(2^n) |->
     LET b == i - 1 IN
     IF CtlOK(ctl, SetBit(b, t, 0))
     THEN CAdd(CMul(g[2*Bit(b, t) + 1], x[SetBit(b, t, 0) + 1]),
               CMul(g[2*Bit(b, t) + 2], x[SetBit(b, t, 1) + 1]))
     ELSE x[i]])

\* ---- size of the canonical diagram ----
\* proportional (both non-zero)
Proportional(x, y) ==
  LET p == CHOOSE i \in 1..Len(x) : x[i] # Zero /\ \A j \in 1..(i-1) : x[j] = Zero
  IN /\ y[p] # Zero
     /\ \A j \in 1..Len(x) : CMul(x[p], y[j]) = CMul(y[p], x[j])
RECURSIVE Classes(_, _)
\* number of classes of proportional non-zero elements of the sequence s of functions,
\* reps being the representatives found so far
Classes(s, reps) ==
  IF s = <<>> THEN Cardinality(reps)
  ELSE LET h == Head(s) IN
       IF IsZeroV(h) \/ (\E r \in reps : Proportional(r, h)) THEN Classes(Tail(s), reps)
       ELSE Classes(Tail(s), reps \cup {h})
SubVec(x, l, j) == TLCEval([i \in 1..2^(l+1) |-> x[j * 2^(l+1) + i]])   \* level l, prefix j
SubMat(n, m, l, r, c) ==
  LET N == 2^n
      B == 2^(l+1)
  IN TLCEval([i \in 1..(B*B) |-> At(m, N, r*B + ((i-1) \div B), c*B + ((i-1) % B))])
VSubs(n, x, l) == [j \in 1..2^(n-1-l) |-> SubVec(x, l, j-1)]
MSubs(n, m, l) == LET K == 2^(n-1-l) IN [j \in 1..(K*K) |-> SubMat(n, m, l, (j-1) \div K, (j-1) % K)]
SumSet(n, f) == LET RECURSIVE go(_)
                    go(l) == IF l = n THEN 0 ELSE f[l] + go(l+1)
                IN go(0)
VSize(n, x) == 1 + SumSet(n, [l \in 0..(n-1) |-> Classes(VSubs(n, x, l), {})])
MSize(n, m) == 1 + SumSet(n, [l \in 0..(n-1) |-> Classes(MSubs(n, m, l), {})])
=============================================================================
