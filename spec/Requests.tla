------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Requests on and beyond the boundary of what the package supports, in    *)
(* the middle of arbitrary histories of DDPackage.  Every request has a    *)
(* verdict: accepted (with its exact result) or rejected with the          *)
(* documented kind of error.  In both cases nothing the user holds         *)
(* changes.  Verdicts: 0 accepted, 1 invalid argument, 2 runtime error,    *)
(* 3 some error.                                                           *)
(***************************************************************************)
EXTENDS DDPackage

Limit == 128                     \* the most qubits any package can have
Fits(n, s) == n + s <= cap
Verdict(ok, err) == IF ok THEN 0 ELSE err
Ask(rec) == SRes(rec)            \* no effect on anything held

\* result r only where it is accepted
Res(ok, r) == IF ok THEN r ELSE <<>>
Counts == 1..(cap + 3)
Start(n) == RandomElement({0, 0, RandomElement(0..3), IF n <= cap THEN cap - n ELSE 0, IF n <= cap THEN cap - n + 1 ELSE 1})
SmallN(n) == IF n > 6 THEN 6 ELSE n

RqZero == \E n \in Pick(Counts) : \E s \in {Start(n)} :
          Ask([k |-> "rqzero", n |-> n, b |-> s, t |-> Verdict(Fits(n, s), 2), r |-> Res(Fits(n, s), VBasis(n, 0))])
RqDens == \E n \in Pick(Counts) :
          Ask([k |-> "rqdens", n |-> n, t |-> Verdict(Fits(n, 0), 2), r |-> Res(Fits(n, 0) /\ n <= 3, VOuter(VBasis(IF n <= 3 THEN n ELSE 1, 0)))])
RqBits == \E n \in Pick(Counts) : \E s \in {Start(n)} : \E x \in Pick([1..(n + s) -> {0, 1}]) :
          Ask([k |-> "rqbits", n |-> n, b |-> s, p |-> x, t |-> Verdict(Fits(n, s), 2),
               r |-> Res(Fits(n, s), VProduct(TLCEval([i \in 1..n |-> x[i + s]])))])
\* the list of one-qubit states may be too short
RqState == \E n \in Pick(Counts) : \E l \in Pick(0..(n + 1)) : \E x \in Pick([1..l -> 0..5]) :
          LET ok == Fits(n, 0) /\ l >= n IN
          Ask([k |-> "rqstate", n |-> n, b |-> 0, p |-> x, t |-> Verdict(ok, 2),
               r |-> Res(ok, VProduct(TLCEval([i \in 1..SmallN(n) |-> IF i <= l THEN x[i] ELSE 0])))])
RqStateS == \E n \in Pick(Counts) : \E s \in {Start(n)} : \E x \in Pick([1..(n + s) -> 0..5]) :
          Ask([k |-> "rqstate", n |-> n, b |-> s, p |-> x, t |-> Verdict(Fits(n, s), 2),
               r |-> Res(Fits(n, s), VProduct(TLCEval([i \in 1..n |-> x[i + s]])))])
RqGate == \E n \in Pick(Counts) : \E s \in {Start(n)} : \E t \in Pick(0..(n - 1)) : \E c \in PickCtl(n, t) : \E g \in Pick(GateIdx) :
          LET ok == Fits(n, s) IN
          Ask([k |-> "rqgate", n |-> n, b |-> s, g |-> AllGates[g], p |-> <<t>>, c |-> CtlSeq(n, c), t |-> Verdict(ok, 2),
               r |-> Res(ok /\ n <= 4, IF n <= 4 THEN Gate(n, AllGates[g], t, c) ELSE <<>>)])
\* exchange of two qubits
Swapped(x, a, b) == SetBit(SetBit(x, a, Bit(x, b)), b, Bit(x, a))
RqGate2 == \E n \in Pick(2..(cap + 3)) : \E s \in {Start(n)} : \E a \in Pick(0..(n - 1)) : \E b \in Pick((0..(n - 1)) \ {a}) :
          LET ok == Fits(n, s) N == 2^n IN
          Ask([k |-> "rqgate2", n |-> n, b |-> s, p |-> <<a, b>>, t |-> Verdict(ok, 2),
               r |-> Res(ok /\ n <= 4, IF n <= 4 THEN TLCEval([i \in 1..(N * N) |-> IF Swapped((i - 1) \div N, a, b) = (i - 1) % N THEN One ELSE Zero]) ELSE <<>>)])

IsPow2(l) == \E j \in 0..10 : 2^j = l
Log2(l) == CHOOSE j \in 0..10 : 2^j = l
RqVec == \E l \in Pick({l \in 1..17 : IsPow2(l) => l <= 2^cap}) : \E x \in {[i \in 1..l |-> RandomElement({Zero, One, MOne, Im, Half, W1})]} :
          LET ok == IsPow2(l) IN
          Ask([k |-> "rqvec", n |-> IF ok THEN Log2(l) ELSE 0, v |-> x, t |-> Verdict(ok, 1), r |-> Res(ok, x)])
\* q: the lengths of the rows
RqMat == \E l \in Pick({1, 2, 2, 3, 4, 4, 4, 5, 8}) : \E j \in Pick(0..4) : \E d \in Pick({-1, 1, 2, l}) :
          LET q  == TLCEval([i \in 1..l |-> IF j = 0 THEN l ELSE IF j = 1 THEN IF l + d < 1 THEN 1 ELSE l + d
                                            ELSE IF i = ((j - 2) * (l - 1)) \div 2 + 1 THEN IF l + d < 1 THEN 1 ELSE l + d ELSE l])
              ok == IsPow2(l) /\ \A i \in 1..l : q[i] = l
          IN \E x \in {[i \in 1..(l * l) |-> RandomElement({Zero, One, MOne, Im, Half, W1})]} :
             Ask([k |-> "rqmat", n |-> IF ok THEN Log2(l) ELSE 0, q |-> q, m |-> x, t |-> Verdict(ok, 1), r |-> Res(ok, x)])

RqResize == \E n \in Pick({Limit + 1, Limit + 2, 200, 255, 256, 257, 384, 1000, 65536}) : Ask([k |-> "rqresize", n |-> n, t |-> Verdict(n <= Limit, 1)])
\* another package of that size, its boundary, and growth from there
RqNew == \E n \in Pick({1, 2, 127, Limit, Limit + 1, 200, 256, 257}) : Ask([k |-> "rqnew", n |-> n, t |-> Verdict(n <= Limit, 1)])
\* probabilities of a density matrix: at most 63 qubits can be indexed
RqDProb == \E n \in Pick({64, 65, 100, Limit}) : Ask([k |-> "rqdprob", n |-> n, t |-> 2])

RqMeasAll == \E a \in Pick(VS) : LET z == IsZeroV(vs[a].x) IN
          Ask([k |-> "rqmeasall", a |-> a, n |-> vs[a].n, t |-> Verdict(~z, 2), e |-> vs[a].x])
RqMeasZero == Ask([k |-> "rqmeasall", a |-> 0, n |-> 0, t |-> 2])
RqFactors == <<One, <<2,0,0,0,0>>, Half, <<3,0,0,0,1>>, W1, MOne>>
RqMeasOne == IF UnitV = {} THEN Nop ELSE \E a \in Pick(UnitV) : \E q \in Pick(0..(vs[a].n - 1)) : \E f \in Pick(1..Len(RqFactors)) :
          LET x == VScale(RqFactors[f], vs[a].x) IN
          IF ~Small(x) THEN Nop ELSE
          Ask([k |-> "rqmeasone", n |-> vs[a].n, p |-> <<q>>, t |-> Verdict(CMag2(RqFactors[f]) = One, 2), r |-> x])
RqExpv == IF NonZeroM = {} \/ NonZeroV = {} THEN Nop ELSE
          \E a \in Pick(NonZeroM) : LET B == {b \in NonZeroV : vs[b].n # ms[a].n} IN
          IF B = {} THEN Nop ELSE \E b \in Pick(B) : Ask([k |-> "rqexpv", a |-> a, b |-> b, t |-> 1])
RqRelease == \E n \in Pick(1..cap) : \E j \in Pick(0..3) : Ask([k |-> "rqrelease", n |-> n, p |-> <<j>>, t |-> 2])
RqCons == \E i \in Pick({0, 1}) : \E a \in Pick(IF i = 0 THEN NonZeroV ELSE NonZeroM) :
          Ask([k |-> "rqcons", a |-> a, p |-> <<i>>, n |-> IF i = 0 THEN vs[a].n ELSE ms[a].n, r |-> IF i = 0 THEN vs[a].x ELSE ms[a].x])

\* files: what is done to the serialized text and whether it is still acceptable
Edits == << <<"none", 0>>, <<"comment", 0>>, <<"blank lines", 0>>, <<"trailing spaces", 0>>,
            <<"version 0", 2>>, <<"version 2", 2>>, <<"version 11", 2>>, <<"version not a number", 3>>, <<"empty", 3>>,
            <<"root weight is a word", 2>>, <<"root weight with junk", 2>>, <<"edge missing", 2>>, <<"edge too many", 2>>, <<"index is a word", 2>>,
            <<"junk after the line", 2>>, <<"junk before the line", 2>>, <<"weight is a word", 2>>, <<"parenthesis missing", 2>>, <<"level missing", 2>>,
            <<"extra junk line", 2>>, <<"binary none", 0>>, <<"binary version", 2>>, <<"binary version high byte", 2>>, <<"binary empty", 2>>,
            <<"binary as text", 3>>, <<"text as binary", 2>> >>
RqFile == \E i \in Pick({0, 1}) :
          LET S == IF i = 0 THEN NonZeroV ELSE NonZeroM IN
          IF S = {} THEN Nop ELSE \E a \in Pick(S) : \E e \in Pick(1..Len(Edits)) : \E j \in Pick({0, 1}) :
          Ask([k |-> "rqfile", a |-> a, n |-> IF i = 0 THEN vs[a].n ELSE ms[a].n, p |-> <<i, e, j>>, t |-> Edits[e][2], r |-> IF i = 0 THEN vs[a].x ELSE ms[a].x])
\* named files: missing input, impossible output, both fine
RqPath == \E i \in Pick({0, 1}) : \E b \in Pick({0, 1}) : \E j \in Pick({0, 1, 2}) : \E a \in Pick(IF i = 0 THEN VS ELSE MS) :
          Ask([k |-> "rqpath", a |-> a, n |-> IF i = 0 THEN vs[a].n ELSE ms[a].n, p |-> <<i, b, j>>, t |-> IF j = 2 THEN 0 ELSE 1, r |-> IF i = 0 THEN vs[a].x ELSE ms[a].x])

DoR(kind) ==
  CASE kind = "rqzero" -> RqZero [] kind = "rqdens" -> RqDens [] kind = "rqbits" -> RqBits [] kind = "rqstate" -> RqState [] kind = "rqstates" -> RqStateS
    [] kind = "rqgate" -> RqGate [] kind = "rqgate2" -> RqGate2 [] kind = "rqvec" -> RqVec [] kind = "rqmat" -> RqMat
    [] kind = "rqresize" -> RqResize [] kind = "rqnew" -> RqNew [] kind = "rqdprob" -> RqDProb [] kind = "rqmeasall" -> RqMeasAll
    [] kind = "rqmeaszero" -> RqMeasZero [] kind = "rqmeasone" -> RqMeasOne [] kind = "rqexpv" -> RqExpv
    [] kind = "rqrelease" -> RqRelease [] kind = "rqcons" -> RqCons [] kind = "rqfile" -> RqFile [] kind = "rqpath" -> RqPath
    [] OTHER -> Do(kind)
NextR == /\ Len(hist) <= Depth
         /\ \E i \in Pick(1..Len(Kinds)) : DoR(Kinds[i])
SpecR == Init /\ [][NextR]_vars
=============================================================================
