------------------------------ MODULE DDPackage ------------------------------
(***************************************************************************)
(* The package as a state machine.  The state is what a user can see: the  *)
(* functions denoted by the diagrams held in vector slots, operator slots  *)
(* and one density-matrix slot.  Every action is one public operation; its *)
(* effect is given exactly by module Denote.  Memory operations (garbage   *)
(* collection, clearing of caches, additional references) do not change    *)
(* this state: that is what the implementation has to guarantee.           *)
(*                                                                         *)
(* `hist' is the behaviour so far, one record per operation with all       *)
(* arguments and the exact result; complete behaviours are written to a    *)
(* file and replayed on the real package.                                  *)
(***************************************************************************)
EXTENDS Denote, Json, CSV, IOUtils, Randomization

CONSTANTS Kinds,      \* sequence of the operations to use (repetitions are weights)
          Widths,     \* set of possible qubit counts of the initial diagrams
          NMax,       \* largest qubit count of vectors
          NMaxM,      \* largest qubit count of operators
          KV, KM,     \* number of slots
          Caps,       \* set of initial capacities of the package
          Depth,      \* number of operations per behaviour
          GateIdx,    \* indices into AllGates that may be used
          Exhaustive  \* TRUE: all choices are explored, FALSE: sampled

VARIABLES vs, ms, ds, hist,
          dk,         \* a second density matrix, kept for sums
          cap         \* the number of qubits the package is configured for
vars == <<vs, ms, ds, hist, dk, cap>>

Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}

Pools == << {Zero, One}, {Zero, One, MOne}, {Zero, One, MOne, Im, MIm},
            {Zero, Zero, One, Half, Sq, W1, Im}, {One, MOne}, {One, W1, Im, W3, CNeg(W3)},
            {Zero, One, <<2,0,0,0,0>>, <<1,0,1,0,0>>, <<1,1,0,0,0>>, <<3,0,0,0,2>>},
            {<<1,0,0,0,4>>, One, <<3,0,0,0,0>>, MOne}, {Zero, Sq, CNeg(Sq), CMul(Sq, W1)},
            {One, Half, MIm}, {<<0,0,0,0,0>>, <<3,0,0,0,1>>, <<0,0,3,0,2>>, <<1,0,2,0,1>>} >>

RandomVec(n) == LET p == RandomElement(1..Len(Pools))
                    s == RandomElement(0..3)      \* sparsity
                IN TLCEval([i \in 1..2^n |-> IF s > 0 /\ RandomElement(0..3) < s - 1 THEN Zero
                                                     ELSE RandomElement(Pools[p])])
RandomMat(n) == LET p == RandomElement(1..Len(Pools))
                    s == RandomElement(0..3)
                IN TLCEval([i \in 1..4^n |-> IF s > 0 /\ RandomElement(0..3) < s - 1 THEN Zero
                                                     ELSE RandomElement(Pools[p])])
RandomSym(n) == LET m == RandomMat(n) N == 2^n IN
                TLCEval([i \in 1..4^n |-> LET r == (i-1) \div N c == (i-1) % N
                                          IN IF r <= c THEN m[i] ELSE At(m, N, c, r)])
RandomDiag(n) == LET m == RandomMat(n) N == 2^n IN
                TLCEval([i \in 1..4^n |-> IF ((i-1) \div N) = ((i-1) % N) THEN m[i] ELSE Zero])
RandomHerm(n) == LET m == RandomMat(n) N == 2^n IN
                TLCEval([i \in 1..4^n |-> LET r == (i-1) \div N c == (i-1) % N
                                          IN IF r < c THEN m[i]
                                             ELSE IF r = c THEN CAdd(m[i], CConj(m[i]))
                                             ELSE CConj(At(m, N, c, r))])
RandomPerm(n) ==  \* product of random monomial gates
  LET RECURSIVE go(_, _)
      go(k, m) == IF k = 0 THEN m ELSE
        LET g == RandomElement({GX, GY, GZ, GS, GT, GX, GX})
            t == RandomElement(0..(n-1))
            c == {<<q, RandomElement({TRUE, FALSE})>> : q \in RandomElement(SUBSET ((0..(n-1)) \ {t}))}
        IN go(k - 1, MMul(n, Gate(n, g, t, c), m))
  IN go(RandomElement(1..5), MIdent(n))
RandomStruct(n) == \* a Kronecker product of random factors
  LET RECURSIVE go(_)
      go(k) == IF k = 1 THEN RandomMat(1) ELSE MKron(1, RandomMat(1), k - 1, go(k - 1))
  IN go(n)
AnyMat(n) == LET i == RandomElement(1..6) IN
             CASE i = 1 -> RandomMat(n) [] i = 2 -> RandomSym(n) [] i = 3 -> RandomDiag(n)
               [] i = 4 -> RandomHerm(n) [] i = 5 -> RandomPerm(n) [] OTHER -> RandomStruct(n)
RandomKronVec(n) ==
  LET RECURSIVE go(_)
      go(k) == IF k = 1 THEN RandomVec(1) ELSE VKron(RandomVec(1), go(k - 1))
  IN go(n)
AnyVec(n) == IF RandomElement(1..3) = 1 THEN RandomKronVec(n) ELSE RandomVec(n)

VCap == cap
MCap == IF cap < NMaxM THEN cap ELSE NMaxM
VW == 1..VCap
MW == 1..MCap
WidthV == IF RandomElement(1..4) = 1 THEN VW ELSE {vs[1].n}
WidthM == IF RandomElement(1..4) = 1 THEN MW ELSE {ms[1].n}

Log(r)      == hist' = Append(hist, r)
SetV(d, n, x) == vs' = [vs EXCEPT ![d] = [n |-> n, x |-> x]]
SetM(d, n, x) == ms' = [ms EXCEPT ![d] = [n |-> n, x |-> x]]
KeepV == UNCHANGED vs
KeepM == UNCHANGED ms
KeepD == UNCHANGED <<ds, dk, cap>>

\* results that would leave the numerically safe range are replaced by a fresh basis state
\* (identity); the record says what was really done
VRes(d, n, x, rec) ==
  /\ KeepM /\ KeepD
  /\ IF Small(x)
     THEN SetV(d, n, x) /\ Log(rec @@ [d |-> d, n |-> n, r |-> x, z |-> VSize(n, x)])
     ELSE \E b \in {RandomElement(0..(2^n - 1))} :
          SetV(d, n, VBasis(n, b)) /\ Log([k |-> "vbasis", d |-> d, n |-> n, p |-> <<b>>, r |-> VBasis(n, b), z |-> n + 1])
MRes(d, n, x, rec) ==
  /\ KeepV /\ KeepD
  /\ IF Small(x)
     THEN SetM(d, n, x) /\ Log(rec @@ [d |-> d, n |-> n, r |-> x, z |-> MSize(n, x)])
     ELSE SetM(d, n, MIdent(n)) /\ Log([k |-> "mid", d |-> d, n |-> n, r |-> MIdent(n), z |-> n + 1])
SRes(rec) == KeepV /\ KeepM /\ KeepD /\ Log(rec)     \* scalar results
Nop == SRes([k |-> "nop"])

VS == 1..KV
MS == 1..KM
VLike(n) == {s \in VS : vs[s].n = n}
MLike(n) == {s \in MS : ms[s].n = n}
UnitV == {s \in VS : VNorm2(vs[s].x) = One}
UnitM == {s \in MS : IsUnitary(ms[s].n, ms[s].x)}
NonZeroV == {s \in VS : ~IsZeroV(vs[s].x)}
NonZeroM == {s \in MS : ~IsZeroV(ms[s].x)}
SubsetsOf(n) == SUBSET (0..(n-1))
Bools(n, S) == [i \in 1..n |-> IF (i-1) \in S THEN 1 ELSE 0]
CtlSeq(n, c) == \* controls as a sequence: 0 none, 1 positive, 2 negative, per qubit
  [i \in 1..n |-> IF <<i-1, TRUE>> \in c THEN 1 ELSE IF <<i-1, FALSE>> \in c THEN 2 ELSE 0]
CtlChoices(n, t) == {c \in SUBSET (((0..(n-1)) \ {t}) \X {TRUE, FALSE}) :
                        \A a, b \in c : a[1] = b[1] => a = b}
PickCtl(n, t) == IF Exhaustive THEN CtlChoices(n, t)
                 ELSE {{<<q, RandomElement({TRUE, FALSE})>> : q \in RandomElement(SUBSET ((0..(n-1)) \ {t}))}}

\* ------------------------------------------------------------- creation
VBasisOp == \E d \in Pick(VS) : \E n \in Pick(WidthV) : \E b \in Pick(0..(2^n - 1)) :
            VRes(d, n, VBasis(n, b), [k |-> "vbasis", p |-> <<b>>])
VZeroOp  == \E d \in Pick(VS) : \E n \in Pick(WidthV) : VRes(d, n, VBasis(n, 0), [k |-> "vzero"])
VStateOp == \E d \in Pick(VS) : \E n \in Pick(WidthV) : \E s \in Pick([1..n -> 0..5]) :
            VRes(d, n, VProduct(s), [k |-> "vstate", p |-> s])
VVecOp   == \E d \in Pick(VS) : \E n \in Pick(WidthV) : \E x \in {AnyVec(n)} :
            VRes(d, n, x, [k |-> "vvec"])
\* a unit vector proportional to an integer-like one: a gate sequence applied to a basis state
VUnitOp  == \E d \in Pick(VS) : \E n \in Pick(WidthV) :
            \E x \in {LET RECURSIVE go(_, _)
                          go(j, y) == IF j = 0 THEN y ELSE
                            LET t == RandomElement(0..(n-1))
                                g == UGates[RandomElement(1..Len(UGates))]
                                c == {<<q, RandomElement({TRUE, FALSE})>> : q \in RandomElement(SUBSET ((0..(n-1)) \ {t}))}
                                y2 == GateVec(n, g, t, c, y)
                            IN go(j - 1, IF Small(y2) THEN y2 ELSE y)
                      IN go(RandomElement(2..8), VBasis(n, RandomElement(0..(2^n - 1))))} :
            VRes(d, n, x, [k |-> "vvec"])
\* unit vectors whose nodes are reached along several paths of different probability
RECURSIVE Shared(_)
Shared(n) == IF n = 0 THEN <<<<One>>>> ELSE
  LET P == TLCEval(Shared(n - 1))
      Nil == [i \in 1..(2^(n-1)) |-> Zero]
      Times(c, x) == VScale(c, x)
      Joined(m, f, g, u) == CASE m = 1 -> f \o Nil [] m = 2 -> Nil \o f [] OTHER -> Times(Sq, f) \o Times(CMul(Sq, u), g)
  IN TLCEval([i \in 1..3 |-> Joined(RandomElement(1..4), P[RandomElement(1..Len(P))], P[RandomElement(1..Len(P))], RandomElement({One, MOne, Im, MIm, W1}))])
VShareOp == \E d \in Pick(VS) : \E n \in Pick(WidthV) : \E x \in {Shared(n)[1]} : VRes(d, n, x, [k |-> "vvec"])
MMatOp   == \E d \in Pick(MS) : \E n \in Pick(WidthM) : \E x \in {AnyMat(n)} :
            MRes(d, n, x, [k |-> "mmat"])
MPermOp  == \E d \in Pick(MS) : \E n \in Pick(WidthM) : \E x \in {RandomPerm(n)} :
            MRes(d, n, x, [k |-> "mmat"])
MHermOp  == \E d \in Pick(MS) : \E n \in Pick(WidthM) : \E x \in {RandomHerm(n)} :
            MRes(d, n, x, [k |-> "mmat"])
MUnitOp  == \E d \in Pick(MS) : \E n \in Pick(WidthM) :
            \E x \in {LET RECURSIVE go(_, _)
                          go(j, y) == IF j = 0 THEN y ELSE
                            LET t == RandomElement(0..(n-1))
                                g == UGates[RandomElement(1..Len(UGates))]
                                c == {<<q, RandomElement({TRUE, FALSE})>> : q \in RandomElement(SUBSET ((0..(n-1)) \ {t}))}
                                y2 == MMul(n, Gate(n, g, t, c), y)
                            IN go(j - 1, IF Small(y2) THEN y2 ELSE y)
                      IN go(RandomElement(1..6), MIdent(n))} :
            MRes(d, n, x, [k |-> "mmat"])
MIdOp    == \E d \in Pick(MS) : \E n \in Pick(WidthM) : MRes(d, n, MIdent(n), [k |-> "mid"])
MGateOp  == \E d \in Pick(MS) : \E n \in Pick(WidthM) : \E t \in Pick(0..(n-1)) : \E c \in PickCtl(n, t) :
            \E g \in Pick(GateIdx) :
            MRes(d, n, Gate(n, AllGates[g], t, c),
                 [k |-> "mgate", g |-> AllGates[g], gi |-> g, p |-> <<t>>, c |-> CtlSeq(n, c)])

\* ------------------------------------------------------------- arithmetic
VAddOp == \E a \in Pick(VS) : \E b \in Pick(VLike(vs[a].n)) : \E d \in Pick(VS) :
          VRes(d, vs[a].n, VAdd(vs[a].x, vs[b].x), [k |-> "vadd", a |-> a, b |-> b])
MAddOp == \E a \in Pick(MS) : \E b \in Pick(MLike(ms[a].n)) : \E d \in Pick(MS) :
          MRes(d, ms[a].n, VAdd(ms[a].x, ms[b].x), [k |-> "madd", a |-> a, b |-> b])
MVOp   == \E a \in Pick(MS) :
          IF VLike(ms[a].n) = {} THEN Nop ELSE
          \E b \in Pick(VLike(ms[a].n)) : \E d \in Pick(VS) :
          VRes(d, ms[a].n, MVec(ms[a].n, ms[a].x, vs[b].x), [k |-> "mv", a |-> a, b |-> b])
MMOp   == \E a \in Pick(MS) : \E b \in Pick(MLike(ms[a].n)) : \E d \in Pick(MS) :
          MRes(d, ms[a].n, MMul(ms[a].n, ms[a].x, ms[b].x), [k |-> "mm", a |-> a, b |-> b])
VKronOp == \E a \in Pick(VS) : \E d \in Pick(VS) :
          LET B == {s \in VS : vs[s].n + vs[a].n <= VCap} IN
          IF B = {} THEN Nop ELSE \E b \in Pick(B) :
          VRes(d, vs[a].n + vs[b].n, VKron(vs[a].x, vs[b].x), [k |-> "vkron", a |-> a, b |-> b])
MKronOp == \E a \in Pick(MS) : \E d \in Pick(MS) :
          LET B == {s \in MS : ms[s].n + ms[a].n <= MCap} IN
          IF B = {} THEN Nop ELSE \E b \in Pick(B) :
          MRes(d, ms[a].n + ms[b].n, MKron(ms[a].n, ms[a].x, ms[b].n, ms[b].x), [k |-> "mkron", a |-> a, b |-> b])
\* Kronecker product without index shift: the upper operand was built with a start offset
VKronSOp == \E b \in Pick(VS) : \E d \in Pick(VS) :
          IF vs[b].n >= VCap THEN Nop ELSE
          \E na \in Pick(1..(VCap - vs[b].n)) : \E s \in Pick([1..na -> 0..5]) :
          VRes(d, na + vs[b].n, VKron(VProduct(s), vs[b].x), [k |-> "vkrons", b |-> b, p |-> s])
MKronSOp == \E b \in Pick(MS) : \E d \in Pick(MS) :
          IF ms[b].n >= MCap THEN Nop ELSE
          \E na \in Pick(1..(MCap - ms[b].n)) : \E t \in Pick(0..(na-1)) : \E c \in PickCtl(na, t) : \E g \in Pick(GateIdx) :
          MRes(d, na + ms[b].n, MKron(na, Gate(na, AllGates[g], t, c), ms[b].n, ms[b].x),
               [k |-> "mkrons", b |-> b, g |-> AllGates[g], p |-> <<t>>, c |-> CtlSeq(na, c)])
MExtOp == \E a \in Pick(MS) : \E d \in Pick(MS) : \E h \in Pick(0..(MCap - ms[a].n)) : \E l \in Pick(0..(MCap - ms[a].n - h)) :
          MRes(d, ms[a].n + h + l,
               MKron(h, MIdent(h), ms[a].n + l, MKron(ms[a].n, ms[a].x, l, MIdent(l))),
               [k |-> "mext", a |-> a, p |-> <<h, l>>])
MTransOp == \E a \in Pick(MS) : \E d \in Pick(MS) :
          MRes(d, ms[a].n, MTrans(ms[a].n, ms[a].x), [k |-> "mtrans", a |-> a])
MAdjOp   == \E a \in Pick(MS) : \E d \in Pick(MS) :
          MRes(d, ms[a].n, MAdj(ms[a].n, ms[a].x), [k |-> "madj", a |-> a])

\* ------------------------------------------------------------- scalars
InnerOp == \E a \in Pick(VS) : \E b \in Pick(VLike(vs[a].n)) :
          SRes([k |-> "inner", a |-> a, b |-> b, s |-> VInner(vs[a].x, vs[b].x)])
FidOp   == \E a \in Pick(VS) : \E b \in Pick(VLike(vs[a].n)) :
          SRes([k |-> "fid", a |-> a, b |-> b, s |-> CMag2(VInner(vs[a].x, vs[b].x))])
\* sum over the outcomes i of |amplitude i| * q_i, with probabilities q_i^2 given as rationals
FidmOp  == \E a \in Pick(VS) :
          \E q \in {[i \in 1..2^vs[a].n |-> RandomElement(0..4)]} :
          SRes([k |-> "fidm", a |-> a, q |-> q, m2 |-> [i \in 1..2^vs[a].n |-> CMag2(vs[a].x[i])]])
ExpvOp  == \E a \in Pick(MS) : LET H == TLCEval(VAdd(ms[a].x, MAdj(ms[a].n, ms[a].x))) IN
          IF VLike(ms[a].n) = {} \/ ~Small(H) THEN Nop ELSE
          \E b \in Pick(VLike(ms[a].n)) : \E d \in {a} :
          /\ SetM(d, ms[a].n, H) /\ KeepV /\ KeepD
          /\ Log([k |-> "expv", a |-> a, b |-> b, d |-> d, n |-> ms[a].n, r |-> H, z |-> MSize(ms[a].n, H),
                  s |-> VInner(vs[b].x, MVec(ms[a].n, H, vs[b].x))])
TraceOp == \E a \in Pick(MS) : SRes([k |-> "trace", a |-> a, s |-> MTraceVal(ms[a].n, ms[a].x)])
PTraceOp == \E a \in Pick(MS) : \E d \in Pick(MS) : \E E \in Pick({S \in SubsetsOf(ms[a].n) : S # 0..(ms[a].n - 1)}) :
          MRes(d, ms[a].n - Cardinality(E), PTrace(ms[a].n, ms[a].x, E),
               [k |-> "ptrace", a |-> a, p |-> Bools(ms[a].n, E)])
\* the identity test: ancillary qubits (whose rows of one are all zero) do not matter
IsIdOp  == IF NonZeroM = {} THEN Nop ELSE \E a \in Pick(NonZeroM) : \E A \in Pick({S \in SubsetsOf(ms[a].n) : S = {} \/ RandomElement({TRUE, FALSE})}) :
          \E x \in {ReduceAnc(ms[a].n, ms[a].x, A, TRUE)} : \E v \in {IdVerdict(ms[a].n, x)} :
          IF v = 2 THEN Nop ELSE
          SRes(IF A = {} THEN [k |-> "isid", a |-> a, t |-> v] ELSE [k |-> "isid", a |-> a, t |-> v, n |-> ms[a].n, r |-> x])

\* ------------------------------------------------------------- read-out, deletion, persistence
VReadOp == \E a \in Pick(VS) : SRes([k |-> "vread", a |-> a, n |-> vs[a].n, e |-> vs[a].x])
MReadOp == \E a \in Pick(MS) : SRes([k |-> "mread", a |-> a, n |-> ms[a].n, e |-> ms[a].x])
VDelOp == \E a \in Pick(VS) : \E d \in Pick(VS) : \E q \in Pick(0..(vs[a].n - 1)) : \E i \in Pick({0, 1}) :
          VRes(d, vs[a].n, VDelete(vs[a].n, vs[a].x, q, i), [k |-> "vdel", a |-> a, p |-> <<q, i>>])
MDelOp == \E a \in Pick(MS) : \E d \in Pick(MS) : \E q \in Pick(0..(ms[a].n - 1)) : \E i \in Pick(0..3) :
          MRes(d, ms[a].n, MDelete(ms[a].n, ms[a].x, q, i), [k |-> "mdel", a |-> a, p |-> <<q, i>>])
VSerOp == \E a \in Pick(VS) : \E d \in Pick(VS) : \E b \in Pick({0, 1}) :
          VRes(d, vs[a].n, vs[a].x, [k |-> "vser", a |-> a, p |-> <<b>>])
MSerOp == \E a \in Pick(MS) : \E d \in Pick(MS) : \E b \in Pick({0, 1}) :
          MRes(d, ms[a].n, ms[a].x, [k |-> "mser", a |-> a, p |-> <<b>>])
VTransferOp == \E a \in Pick(VS) : \E d \in Pick(VS) : VRes(d, vs[a].n, vs[a].x, [k |-> "vtransfer", a |-> a])
MTransferOp == \E a \in Pick(MS) : \E d \in Pick(MS) : MRes(d, ms[a].n, ms[a].x, [k |-> "mtransfer", a |-> a])
\* one-shot: a diagram (possibly a scalar, n = 0) with tiny, large or uneven weights is built, written and read back
\* (or transferred and transferred back); it is not kept, so its values do not enter further computations
\* (squares and cubes of the tiny ratios are kept clear of the package's tolerance, 2.3e-13)
UnevenPools == << {Zero, One, <<16777216,0,1,0,24>>, <<16777216,0,-1,0,24>>, <<1,0,0,0,24>>, <<1,0,-16777216,0,24>>},
                  {One, <<0,0,1,0,25>>, <<33554432,0,3,0,25>>, <<-33554432,0,1,0,25>>, <<0,1,0,0,26>>},
                  {Zero, One, <<1,0,0,0,24>>, <<-1,0,1,0,26>>, <<1,1,0,0,30>>, Im},
                  {Zero, <<1000000,0,0,0,0>>, <<123456789,0,1,0,0>>, <<0,0,-2500000,0,0>>, <<1,1000000,0,0,0>>},
                  {<<1,0,0,0,20>>, <<3,0,1,0,22>>, <<0,0,-1,0,21>>, Zero, <<0,1,0,0,23>>},
                  {<<0,0,1,0,24>>, <<3,0,0,0,26>>, <<1,0,1,0,25>>, Zero, <<0,0,0,-1,23>>},
                  {One, <<1024,0,1,0,10>>, <<1,0,0,0,10>>, <<0,-1,0,0,11>>, <<0,0,1025,0,10>>},
                  {One, MOne, W3, CNeg(Sq), <<1,2,0,0,1>>, <<-1,0,2,1,0>>, <<3,0,0,0,2>>} >>
Uneven(len) == LET p == RandomElement(1..Len(UnevenPools)) IN TLCEval([i \in 1..len |-> RandomElement(UnevenPools[p])])
VOnceOp(kind) == \E n \in Pick(0..(IF VCap > 4 THEN 4 ELSE VCap)) : \E b \in Pick({0, 1}) : \E x \in {Uneven(2^n)} :
          SRes([k |-> kind, n |-> n, p |-> <<b>>, r |-> x])
\* a diagram and a multiple of it: equal up to the root weight
Factors == {<<1,0,0,0,20>>, <<0,0,1,0,12>>, <<0,-1,0,0,17>>, <<1,0,1,0,22>>, <<-1,0,0,0,0>>, W3, <<5,0,0,0,0>>, <<0,0,300,0,0>>, <<0,0,0,2000,0>>}
VPropOp == \E n \in Pick(1..(IF VCap > 4 THEN 4 ELSE VCap)) : \E c \in Pick(Factors) : \E x \in {AnyVec(n)} :
          SRes([k |-> "vprop", n |-> n, r |-> x, e |-> VScale(c, x)])
MPropOp == \E n \in Pick(1..(IF MCap > 2 THEN 2 ELSE MCap)) : \E c \in Pick(Factors) : \E x \in {AnyMat(n)} :
          SRes([k |-> "mprop", n |-> n, r |-> x, e |-> VScale(c, x)])
MOnceOp(kind) == \E n \in Pick(0..(IF MCap > 2 THEN 2 ELSE MCap)) : \E b \in Pick({0, 1}) : \E x \in {Uneven(4^n)} :
          SRes([k |-> kind, n |-> n, p |-> <<b>>, r |-> x])
\* numbers alone: diagrams without levels
ScalOp == \E x, y \in Pick({One, MOne, Im, W3, Half, Sq, <<3, 1, 0, -2, 1>>, <<0, 5, 1, 0, 2>>, Zero}) :
          SRes([k |-> "scal", r |-> <<x, y>>, e |-> <<CAdd(x, y), CMul(x, y), CMul(CConj(x), y), CConj(x)>>])
VExportOp == \E a \in Pick(VS) : SRes([k |-> "vexport", a |-> a, n |-> vs[a].n, e |-> vs[a].x, z |-> VSize(vs[a].n, vs[a].x)])
MExportOp == \E a \in Pick(MS) : SRes([k |-> "mexport", a |-> a, n |-> ms[a].n, e |-> ms[a].x, z |-> MSize(ms[a].n, ms[a].x)])

\* ------------------------------------------------------------- ancillae and garbage
AncOp  == \E a \in Pick(MS) : \E A \in Pick(SubsetsOf(ms[a].n)) : \E g \in Pick({TRUE, FALSE}) :
          MRes(a, ms[a].n, ReduceAnc(ms[a].n, ms[a].x, A, g),
               [k |-> "manc", a |-> a, p |-> Bools(ms[a].n, A), t |-> IF g THEN 1 ELSE 0])
MGarbOp == LET P == {s \in MS : IsUnitary(ms[s].n, ms[s].x)} IN
          IF P = {} THEN Nop ELSE
          \E a \in Pick(P) : \E g \in Pick({TRUE, FALSE}) :
          \E A \in Pick({B \in SUBSET (0..(ms[a].n - 1)) : MergeOK(ms[a].n, ms[a].x, B, g)}) :
          MRes(a, ms[a].n, ReduceGarb(ms[a].n, ms[a].x, A, g),
               [k |-> "mgarb", a |-> a, p |-> Bools(ms[a].n, A), t |-> IF g THEN 1 ELSE 0])
VGarbOp == LET P == {s \in VS : VNorm2(vs[s].x) = One} IN
          IF P = {} THEN Nop ELSE
          \E a \in Pick(P) : \E A \in Pick({B \in SUBSET (0..(vs[a].n - 1)) : VMergeOK(vs[a].n, vs[a].x, B)}) :
          VRes(a, vs[a].n, VReduceGarb(vs[a].n, vs[a].x, A), [k |-> "vgarb", a |-> a, p |-> Bools(vs[a].n, A)])
CreateInitOp == \E d \in Pick(MS) : \E n \in Pick(WidthM) : \E A \in Pick(SubsetsOf(n)) :
          MRes(d, n, ReduceAnc(n, MIdent(n), A, TRUE), [k |-> "minit", p |-> Bools(n, A)])

\* ------------------------------------------------------------- measurement
ProbsOp == IF UnitV = {} THEN Nop ELSE \E a \in Pick(UnitV) : \E q \in Pick(0..(vs[a].n - 1)) :
          SRes([k |-> "probs", a |-> a, p |-> <<q>>, s |-> Prob(vs[a].n, vs[a].x, q, 0), s2 |-> Prob(vs[a].n, vs[a].x, q, 1)])
\* measure qubit q with outcome o (only possible outcomes)
MeasOp == IF UnitV = {} THEN Nop ELSE \E a \in Pick(UnitV) : \E q \in Pick(0..(vs[a].n - 1)) :
          \E o \in Pick({o \in {0, 1} : Prob(vs[a].n, vs[a].x, q, o) # Zero}) :
          LET p  == Prob(vs[a].n, vs[a].x, q, o)
              pr == VProject(vs[a].n, vs[a].x, q, o)
          IN IF InvSqrtOK(p) /\ Small(VScale(InvSqrt(p), pr))
             THEN VRes(a, vs[a].n, VScale(InvSqrt(p), pr), [k |-> "meas", a |-> a, p |-> <<q, o>>, s |-> p])
             ELSE SRes([k |-> "measx", a |-> a, n |-> vs[a].n, p |-> <<q, o>>, s |-> p, e |-> pr])
MeasAllOp == IF UnitV = {} THEN Nop ELSE \E a \in Pick(UnitV) :
          \E b \in Pick({b \in 0..(2^vs[a].n - 1) : vs[a].x[b + 1] # Zero}) :
          VRes(a, vs[a].n, VBasis(vs[a].n, b), [k |-> "measall", a |-> a, p |-> <<b>>])
\* outcome statistics of a full measurement without collapse
MeasStatOp == IF UnitV = {} THEN Nop ELSE \E a \in Pick(UnitV) :
          SRes([k |-> "measstat", a |-> a, n |-> vs[a].n, m2 |-> [i \in 1..2^vs[a].n |-> CMag2(vs[a].x[i])]])

\* ------------------------------------------------------------- density matrices
DInitOp == \E n \in Pick({w \in Widths : w <= cap}) :
          /\ KeepV /\ KeepM /\ UNCHANGED <<dk, cap>>
          /\ ds' = [n |-> n, x |-> VOuter(VBasis(n, 0))]
          /\ Log([k |-> "dinit", n |-> n, r |-> VOuter(VBasis(n, 0))])
DApplyOp == \E t \in Pick(0..(ds.n - 1)) : \E c \in PickCtl(ds.n, t) : \E g \in Pick(GateIdx) :
          LET r == Conjugate(ds.n, Gate(ds.n, AllGates[g], t, c), ds.x) IN
          /\ KeepV /\ KeepM /\ UNCHANGED <<dk, cap>>
          /\ IF Small(r) /\ ~IsZeroV(r)
             THEN /\ ds' = [n |-> ds.n, x |-> r]
                  /\ Log([k |-> "dapply", n |-> ds.n, g |-> AllGates[g], p |-> <<t>>, c |-> CtlSeq(ds.n, c), r |-> r])
             ELSE /\ ds' = [n |-> ds.n, x |-> VOuter(VBasis(ds.n, 0))]
                  /\ Log([k |-> "dinit", n |-> ds.n, r |-> VOuter(VBasis(ds.n, 0))])
\* a general operator held in a slot
DApplyMOp == IF MLike(ds.n) = {} THEN Nop ELSE \E a \in Pick(MLike(ds.n)) :
          LET r == Conjugate(ds.n, ms[a].x, ds.x) IN
          IF ~Small(r) \/ IsZeroV(r) THEN Nop ELSE
          /\ KeepV /\ KeepM /\ UNCHANGED <<dk, cap>>
          /\ ds' = [n |-> ds.n, x |-> r]
          /\ Log([k |-> "dapplym", n |-> ds.n, a |-> a, r |-> r])
\* keep the present density matrix as a second one; replace the first by the sum of both
DKeepOp == /\ KeepV /\ KeepM /\ UNCHANGED <<ds, cap>> /\ dk' = ds /\ Log([k |-> "dkeep"])
DAddOp  == IF dk.n # ds.n \/ ~Small(VAdd(ds.x, dk.x)) THEN Nop ELSE
          /\ KeepV /\ KeepM /\ UNCHANGED <<dk, cap>>
          /\ ds' = [n |-> ds.n, x |-> VAdd(ds.x, dk.x)]
          /\ Log([k |-> "dadd", n |-> ds.n, r |-> VAdd(ds.x, dk.x)])
DProbsOp == KeepV /\ KeepM /\ KeepD /\
          Log([k |-> "dprobs", n |-> ds.n, m2 |-> [i \in 1..2^ds.n |-> At(ds.x, 2^ds.n, i-1, i-1)]])

\* ------------------------------------------------------------- memory: no visible effect
GCOp      == SRes([k |-> "gc", p |-> <<RandomElement({0, 1, 1})>>])
\* many numbers nobody holds, until the package wants to collect (and is told to, or does so on its own later)
FillOp    == SRes([k |-> "fill", p |-> <<RandomElement({0, 1})>>])
ClearOp   == SRes([k |-> "clear"])
ChurnOp   == \E n \in Pick(VW) : \E x \in {RandomVec(n)} : \E m \in {RandomMat(IF n > MCap THEN MCap ELSE n)} :
             SRes([k |-> "churn", n |-> n, v |-> x, m |-> m])
ExtraRefOp == \E i \in Pick({0, 1}) : \E a \in Pick(IF i = 0 THEN VS ELSE MS) : \E r \in Pick(1..3) :
             SRes([k |-> "xref", p |-> <<i, a, r>>])
DropRefOp  == SRes([k |-> "unxref"])

\* number of active nodes per level, over all the slots
\* reset: everything is forgotten; growth: more qubits, everything held stays as it is
Fresh(w) == LET wm == IF w > NMaxM THEN NMaxM ELSE w IN
        /\ vs' = [s \in VS |-> [n |-> w, x |-> VBasis(w, 0)]]
        /\ ms' = [s \in MS |-> [n |-> wm, x |-> MIdent(wm)]]
        /\ ds' = [n |-> w, x |-> VOuter(VBasis(w, 0))]
        /\ dk' = [n |-> 0, x |-> <<Zero>>]
ResetOp   == /\ Fresh(Head(hist).n) /\ UNCHANGED cap
             /\ Log([k |-> "reset", n |-> Head(hist).n, p |-> Head(hist).p])
GrowOp    == IF cap >= NMax THEN Nop ELSE \E c \in Pick((cap + 1)..NMax) :
             /\ cap' = c /\ UNCHANGED <<vs, ms, ds, dk>>
             /\ Log([k |-> "resize", n |-> c])

ActiveOp  == SRes([k |-> "active", p |-> [l \in 1..VCap |-> VActive([i \in VS |-> vs[i]], l - 1)],
                                   q |-> [l \in 1..MCap |-> MActive([i \in MS |-> ms[i]], l - 1)]])

Do(kind) ==
  CASE kind = "vbasis" -> VBasisOp   [] kind = "vzero" -> VZeroOp     [] kind = "vstate" -> VStateOp
    [] kind = "vshare" -> VShareOp
    [] kind = "vvec" -> VVecOp       [] kind = "vunit" -> VUnitOp     [] kind = "mmat" -> MMatOp
    [] kind = "mperm" -> MPermOp     [] kind = "mherm" -> MHermOp     [] kind = "munit" -> MUnitOp
    [] kind = "mid" -> MIdOp         [] kind = "mgate" -> MGateOp     [] kind = "vadd" -> VAddOp
    [] kind = "madd" -> MAddOp       [] kind = "mv" -> MVOp           [] kind = "mm" -> MMOp
    [] kind = "vkron" -> VKronOp     [] kind = "mkron" -> MKronOp     [] kind = "vkrons" -> VKronSOp
    [] kind = "mkrons" -> MKronSOp   [] kind = "mext" -> MExtOp       [] kind = "mtrans" -> MTransOp
    [] kind = "madj" -> MAdjOp       [] kind = "inner" -> InnerOp     [] kind = "fid" -> FidOp
    [] kind = "fidm" -> FidmOp       [] kind = "expv" -> ExpvOp       [] kind = "trace" -> TraceOp
    [] kind = "ptrace" -> PTraceOp   [] kind = "isid" -> IsIdOp       [] kind = "vread" -> VReadOp
    [] kind = "mread" -> MReadOp     [] kind = "vdel" -> VDelOp       [] kind = "mdel" -> MDelOp
    [] kind = "vser" -> VSerOp       [] kind = "mser" -> MSerOp       [] kind = "vtransfer" -> VTransferOp
    [] kind = "mtransfer" -> MTransferOp [] kind = "fill" -> FillOp
    [] kind = "vexport" -> VExportOp [] kind = "mexport" -> MExportOp
    [] kind \in {"vsero", "vtrano", "vuneven", "vexpo"} -> VOnceOp(kind) [] kind \in {"msero", "mtrano", "muneven", "mexpo"} -> MOnceOp(kind)
    [] kind = "vprop" -> VPropOp [] kind = "mprop" -> MPropOp
    [] kind = "scal" -> ScalOp       [] kind = "manc" -> AncOp        [] kind = "mgarb" -> MGarbOp     [] kind = "vgarb" -> VGarbOp
    [] kind = "minit" -> CreateInitOp
    [] kind = "probs" -> ProbsOp     [] kind = "meas" -> MeasOp       [] kind = "measall" -> MeasAllOp
    [] kind = "measstat" -> MeasStatOp
    [] kind = "dinit" -> DInitOp     [] kind = "dapply" -> DApplyOp   [] kind = "dapplym" -> DApplyMOp
    [] kind = "dprobs" -> DProbsOp    [] kind = "dkeep" -> DKeepOp
    [] kind = "dadd" -> DAddOp
    [] kind = "gc" -> GCOp           [] kind = "clear" -> ClearOp     [] kind = "churn" -> ChurnOp
    [] kind = "xref" -> ExtraRefOp   [] kind = "unxref" -> DropRefOp  [] kind = "active" -> ActiveOp
    [] kind = "reset" -> ResetOp     [] kind = "resize" -> GrowOp

Init == \E w \in Widths : \E c \in Caps :
        LET wm == IF w > NMaxM THEN NMaxM ELSE w IN
        /\ w <= c
        /\ vs = [s \in VS |-> [n |-> w, x |-> VBasis(w, 0)]]
        /\ ms = [s \in MS |-> [n |-> wm, x |-> MIdent(wm)]]
        /\ ds = [n |-> w, x |-> VOuter(VBasis(w, 0))]
        /\ dk = [n |-> 0, x |-> <<Zero>>]
        /\ cap = c
        /\ hist = << [k |-> "begin", n |-> w, p |-> <<wm, KV, KM, NMax, c>>] >>
Next == /\ Len(hist) <= Depth
        /\ \E i \in Pick(1..Len(Kinds)) : Do(Kinds[i])
Spec == Init /\ [][Next]_vars

\* writes every complete behaviour; always true
Emit == \/ Len(hist) <= Depth
        \/ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUTFILE)
TypeOK == /\ \A s \in VS : Len(vs[s].x) = 2^vs[s].n
          /\ \A s \in MS : Len(ms[s].x) = 4^ms[s].n
=============================================================================
