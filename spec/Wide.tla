------------------------------- MODULE Wide -------------------------------
(***************************************************************************)
(* The package at full width (up to 128 qubits).  A function on n qubits   *)
(* is a sum of few product terms: a term [c, f] is the coefficient c times *)
(* the product over the qubits q of the entry f[q] selects -- a pair for   *)
(* vectors, a 2x2 matrix for operators (f[q + 1] belongs to qubit q).      *)
(* All operations of module DDPackage that make sense at this width are    *)
(* given exactly on this representation, without ever listing 2^n values.  *)
(***************************************************************************)
EXTENDS Denote, FiniteSetsExt, Json, CSV, IOUtils

CONSTANTS KindsX,   \* sequence of operations (repetitions are weights)
          WidthSet, \* possible widths
          WMax,     \* capacity of the package
          KV, KM, Depth
VARIABLES wv, wm, hist
vars == <<wv, wm, hist>>
VS == 1..KV
MS == 1..KM
Pick(S) == {RandomElement(S)}

\* ------------------------------------------------------------- representation
TinyF(c) == c[5] <= 4 /\ \A i \in 1..4 : c[i] <= 6 /\ c[i] >= -6
AllTiny(t) == \A i \in 1..Len(t) : TinyF(t[i].c) /\ \A q \in 1..Len(t[i].f) : \A j \in 1..Len(t[i].f[q]) : TinyF(t[i].f[q][j])
ZeroF(f) == \A j \in 1..Len(f) : f[j] = Zero
Dead(u)  == u.c = Zero \/ \E q \in 1..Len(u.f) : ZeroF(u.f[q])
\* without zero terms; terms with equal factors are merged
RECURSIVE Clean(_, _)
Clean(t, acc) ==
  IF t = <<>> THEN SelectSeq(acc, LAMBDA u : u.c # Zero)
  ELSE LET u == Head(t) IN
       IF Dead(u) THEN Clean(Tail(t), acc)
       ELSE LET S == {i \in 1..Len(acc) : acc[i].f = u.f} IN
            IF S = {} THEN Clean(Tail(t), Append(acc, u))
            ELSE LET i == CHOOSE i \in S : TRUE IN
                 Clean(Tail(t), [acc EXCEPT ![i].c = CAdd(@, u.c)])
SimpleV(f) == f[1] = Zero \/ f[2] = Zero
SimpleM(f) == (f[2] = Zero /\ f[3] = Zero) \/ (f[1] = Zero /\ f[4] = Zero)
Spread(t, n, Simple(_)) == Cardinality({q \in 1..n : \E i \in 1..Len(t) : ~Simple(t[i].f[q])})
\* few enough terms and branching qubits, numbers far from the tolerance
RECURSIVE Halvings(_, _)
Halvings(f, q) == IF q > Len(f) THEN 0 ELSE Max({f[q][j][5] : j \in 1..Len(f[q])}) + Halvings(f, q + 1)
NotTooSmall(t) == \A i \in 1..Len(t) : t[i].c[5] + Halvings(t[i].f, 1) <= 20
OKV(n, t) == Len(t) <= 4 /\ AllTiny(t) /\ Spread(t, n, SimpleV) <= 8 /\ NotTooSmall(t)
OKM(n, t) == Len(t) <= 4 /\ AllTiny(t) /\ Spread(t, n, SimpleM) <= 5 /\ NotTooSmall(t)

\* products of many numbers; Big if they leave the range TLC can represent
Big == <<0, 0, 0, 0, -1>>
Fits(z) == z[5] <= 24 /\ \A i \in 1..4 : z[i] <= 1000 /\ z[i] >= -1000
PMul(x, y) == IF x = Big \/ y = Big THEN Big ELSE LET z == CMul(x, y) IN IF Fits(z) THEN z ELSE Big
PAdd(x, y) == IF x = Big \/ y = Big THEN Big ELSE LET z == CAdd(x, y) IN IF Fits(z) THEN z ELSE Big
Prod(n, g(_)) == LET RECURSIVE go(_, _)
                     go(q, acc) == IF q > n \/ acc = Zero \/ acc = Big THEN acc ELSE go(q + 1, PMul(acc, g(q)))
                 IN go(1, One)
PSum(n, g(_)) == LET RECURSIVE go(_, _)
                     go(i, acc) == IF i > n \/ acc = Big THEN acc ELSE go(i + 1, PAdd(acc, g(i)))
                 IN go(1, Zero)

\* ------------------------------------------------------------- meaning
F2(a, b) == <<CMul(a[1], b[1]), CMul(a[2], b[2])>>
Amp(n, t, path) == PSum(Len(t), LAMBDA i : PMul(t[i].c, Prod(n, LAMBDA q : t[i].f[q][path[q] + 1])))
Inner(n, s, t) ==
  PSum(Len(s) * Len(t), LAMBDA k :
     LET a == s[((k-1) \div Len(t)) + 1]
         b == t[((k-1) % Len(t)) + 1]
     IN PMul(PMul(CConj(a.c), b.c),
             Prod(n, LAMBDA q : CAdd(CMul(CConj(a.f[q][1]), b.f[q][1]), CMul(CConj(a.f[q][2]), b.f[q][2])))))
Add(s, t) == Clean(s \o t, <<>>)
MV1(g, x) == <<CAdd(CMul(g[1], x[1]), CMul(g[2], x[2])), CAdd(CMul(g[3], x[1]), CMul(g[4], x[2]))>>
MM1(g, h) == <<CAdd(CMul(g[1], h[1]), CMul(g[2], h[3])), CAdd(CMul(g[1], h[2]), CMul(g[2], h[4])),
               CAdd(CMul(g[3], h[1]), CMul(g[4], h[3])), CAdd(CMul(g[3], h[2]), CMul(g[4], h[4]))>>
Apply(n, s, t, F1(_, _)) ==
  Clean(TLCEval([k \in 1..(Len(s) * Len(t)) |->
     LET a == s[((k-1) \div Len(t)) + 1]
         b == t[((k-1) % Len(t)) + 1]
     IN [c |-> CMul(a.c, b.c), f |-> TLCEval([q \in 1..n |-> F1(a.f[q], b.f[q])])]]), <<>>)
Kron(s, t) ==   \* s above t
  Clean(TLCEval([k \in 1..(Len(s) * Len(t)) |->
     LET a == s[((k-1) \div Len(t)) + 1]
         b == t[((k-1) % Len(t)) + 1]
     IN [c |-> CMul(a.c, b.c), f |-> b.f \o a.f]]), <<>>)
Each(t, F1(_)) == TLCEval([i \in 1..Len(t) |-> [c |-> t[i].c, f |-> TLCEval([q \in 1..Len(t[i].f) |-> F1(t[i].f[q])])]])
AtQ(t, q, F1(_)) == Clean(TLCEval([i \in 1..Len(t) |-> [t[i] EXCEPT !.f = [@ EXCEPT ![q + 1] = F1(@)]]]), <<>>)
Scale(t, c) == Clean(TLCEval([i \in 1..Len(t) |-> [t[i] EXCEPT !.c = CMul(c, @)]]), <<>>)
Tr1(f) == <<f[1], f[3], f[2], f[4]>>
Ad1(f) == <<CConj(f[1]), CConj(f[3]), CConj(f[2]), CConj(f[4])>>
Adj(t) == LET e == Each(t, Ad1) IN [i \in 1..Len(e) |-> [e[i] EXCEPT !.c = CConj(@)]]
Ident(n) == <<[c |-> One, f |-> [q \in 1..n |-> GI]]>>
Ket(n, b) == <<[c |-> One, f |-> [q \in 1..n |-> IF b[q] = 0 THEN <<One, Zero>> ELSE <<Zero, One>>]]>>
\* a 2x2 matrix g on qubit t where all controls (0 none, 1 positive, 2 negative) hold, the identity elsewhere
WGate(n, g, t, ctl) ==
  IF \A q \in 1..n : ctl[q] = 0 THEN <<[c |-> One, f |-> [q \in 1..n |-> IF q = t + 1 THEN g ELSE GI]]>>
  ELSE Clean(<< [c |-> One, f |-> [q \in 1..n |-> GI]],
                [c |-> One, f |-> [q \in 1..n |->
                    IF q = t + 1 THEN <<CSub(g[1], One), g[2], g[3], CSub(g[4], One)>>
                    ELSE CASE ctl[q] = 0 -> GI [] ctl[q] = 1 -> <<Zero, Zero, Zero, One>> [] OTHER -> <<One, Zero, Zero, Zero>>]] >>, <<>>)
WTrace(n, t) == PSum(Len(t), LAMBDA i : PMul(t[i].c, Prod(n, LAMBDA q : CAdd(t[i].f[q][1], t[i].f[q][4]))))
\* the package walks along every non-zero diagonal path when it takes a trace
TracePaths(n, t) == Cardinality({q \in 1..n : \E i \in 1..Len(t) : t[i].f[q][1] # Zero /\ \E j \in 1..Len(t) : t[j].f[q][4] # Zero})
AllPaths(n, t) == Cardinality({q \in 1..n : Cardinality({j \in 1..4 : \E i \in 1..Len(t) : t[i].f[q][j] # Zero}) > 1})
\* reductions walk along every path through different nodes: on how many qubits can a sum of at least two terms
\* branch into sums of at least two terms that are not multiples of each other?
Branches(t, q) ==
  LET K == Len(t[1].f[q])
      ch == [j \in 1..K |-> TLCEval([i \in 1..Len(t) |-> t[i].f[q][j]])]
      Mixed(x) == Cardinality({i \in 1..Len(t) : x[i] # Zero}) > 1
      Multiple(x, y) == \A i, j \in 1..Len(t) : CMul(x[i], y[j]) = CMul(x[j], y[i])
  IN \E i, j \in 1..K : i < j /\ Mixed(ch[i]) /\ Mixed(ch[j]) /\ ~Multiple(ch[i], ch[j])
FewSteps(n, t) == Len(t) <= 1 \/ Cardinality({q \in 1..n : Branches(t, q)}) <= 5
RECURSIVE DropQ(_, _, _)
DropQ(f, E, q) == IF q > Len(f) THEN <<>> ELSE (IF q \in E THEN <<>> ELSE <<f[q]>>) \o DropQ(f, E, q + 1)
WPTrace(n, t, E) ==   \* E: positions (qubit + 1); Big coefficients make the result unusable
  [i \in 1..Len(t) |-> [c |-> PMul(t[i].c, Prod(n, LAMBDA q : IF q \in E THEN CAdd(t[i].f[q][1], t[i].f[q][4]) ELSE One)),
                        f |-> DropQ(t[i].f, E, 1)]]

\* a multiple of the identity; a sum of two terms of which exactly one is such a multiple is not
ScalarTerm(u) == \A q \in 1..Len(u.f) : LET f == u.f[q] IN f[1] = f[4] /\ f[2] = Zero /\ f[3] = Zero

\* ------------------------------------------------------------- random functions
Few(n) == {RandomElement(1..n), RandomElement({1, n}), RandomElement({n, IF n > 1 THEN n - 1 ELSE n}), RandomElement(1..n)}
Some(n) == LET k == RandomElement(0..3) F == Few(n) IN IF k = 0 THEN {} ELSE F
RandBits(n) == LET m == RandomElement(1..5) IN
   TLCEval([q \in 1..n |-> CASE m = 1 -> 0 [] m = 2 -> 1 [] m = 3 -> q % 2 [] m = 4 -> (q - 1) \div 64 [] OTHER -> RandomElement({0, 1})])
FacV == { OneQubit[i] : i \in 1..6 } \cup {<<One, Im>>, <<Half, One>>, <<W1, Sq>>, <<One, MOne>>}
RandTermV(n, c) == LET b == RandBits(n) S == Some(n) IN
   [c |-> c, f |-> TLCEval([q \in 1..n |-> IF q \in S THEN RandomElement(FacV) ELSE IF b[q] = 0 THEN <<One, Zero>> ELSE <<Zero, One>>])]
FacM == {UGates[i] : i \in 1..Len(UGates)} \cup {<<One, Zero, Zero, Zero>>, <<Zero, One, Zero, Zero>>, <<One, One, Zero, One>>, <<One, Im, MIm, One>>, <<Half, Zero, Zero, One>>}
DefM == {GI, GI, GX, GZ, <<One, Zero, Zero, Zero>>, <<Zero, Zero, Zero, One>>, <<Zero, One, Zero, Zero>>}
ProjM == {<<One, Zero, Zero, Zero>>, <<Zero, Zero, Zero, One>>}
\* mode "any": one default per term; mode "paths": single-entry factors nearly everywhere
RandTermM(n, c, mode) == LET d == RandomElement(DefM) S == Some(n) IN
   [c |-> c, f |-> TLCEval([q \in 1..n |-> IF q \in S THEN RandomElement(FacM)
                                          ELSE IF mode = "any" THEN d ELSE RandomElement(ProjM)])]
Coef == {One, One, MOne, Im, Half, W1, Sq, <<2,0,0,0,0>>}
RandCtl(n, t) == LET m == RandomElement(1..4) F == Few(n) IN
   TLCEval([q \in 1..n |-> IF q = t + 1 THEN 0
                           ELSE CASE m = 1 -> 0
                                  [] m = 2 -> IF q \in F THEN RandomElement({1, 2}) ELSE 0
                                  [] m = 3 -> RandomElement({1, 2})
                                  [] OTHER -> RandomElement({0, 1, 2})])
Monomials == {GX, GY, GZ, GS, GT, GSd}

\* ------------------------------------------------------------- records
Terms(n, t) == [n |-> n, t |-> Len(t), m |-> [i \in 1..Len(t) |-> t[i].c], w |-> [i \in 1..Len(t) |-> t[i].f]]
Log(r) == hist' = Append(hist, r)
NoV == UNCHANGED wv
NoM == UNCHANGED wm
VRes(d, n, t, rec) == /\ NoM
  /\ IF OKV(n, t) THEN wv' = [wv EXCEPT ![d] = [n |-> n, t |-> t]] /\ Log(rec @@ [d |-> d] @@ Terms(n, t))
     ELSE \E b \in {RandBits(n)} : wv' = [wv EXCEPT ![d] = [n |-> n, t |-> Ket(n, b)]] /\ Log([k |-> "wbasis", p |-> b, d |-> d] @@ Terms(n, Ket(n, b)))
MRes(d, n, t, mono, rec) == /\ NoV
  /\ IF OKM(n, t) THEN wm' = [wm EXCEPT ![d] = [n |-> n, t |-> t, mono |-> mono]] /\ Log(rec @@ [d |-> d] @@ Terms(n, t))
     ELSE wm' = [wm EXCEPT ![d] = [n |-> n, t |-> Ident(n), mono |-> TRUE]] /\ Log([k |-> "wid", d |-> d] @@ Terms(n, Ident(n)))
SRes(rec) == NoV /\ NoM /\ Log(rec)
Nop == SRes([k |-> "nop"])

WidthV == IF RandomElement(1..3) = 1 THEN WidthSet ELSE {wv[1].n}
WidthM == IF RandomElement(1..3) = 1 THEN WidthSet ELSE {wm[1].n}
VLike(n) == {s \in VS : wv[s].n = n}
MLike(n) == {s \in MS : wm[s].n = n}
UnitV == {s \in VS : Inner(wv[s].n, wv[s].t, wv[s].t) = One}
QPick(n) == Pick({RandomElement(0..(n-1)), 0, n - 1})

\* ------------------------------------------------------------- operations
Do(k) ==
  CASE k = "wbasis" -> \E d \in Pick(VS) : \E n \in Pick(WidthV) : \E b \in {RandBits(n)} : VRes(d, n, Ket(n, b), [k |-> k, p |-> b])
    [] k = "wzero"  -> \E d \in Pick(VS) : \E n \in Pick(WidthV) : VRes(d, n, Ket(n, [q \in 1..n |-> 0]), [k |-> k])
    [] k = "wstate" -> \E d \in Pick(VS) : \E n \in Pick(WidthV) : \E b \in {RandBits(n)} : \E F \in {Some(n)} :
         \E s \in {TLCEval([q \in 1..n |-> IF q \in F THEN RandomElement(0..5) ELSE b[q]])} :
         VRes(d, n, <<[c |-> One, f |-> TLCEval([q \in 1..n |-> OneQubit[s[q] + 1]])]>>, [k |-> k, p |-> s])
    [] k = "wvec"   -> \E d \in Pick(VS) : \E n \in Pick(WidthV) : \E x \in {<<RandTermV(n, RandomElement(Coef))>>} : VRes(d, n, Clean(x, <<>>), [k |-> k])
    [] k = "wghz"   -> \E d \in Pick(VS) : \E n \in Pick(WidthV) : \E b \in {RandBits(n)} :
         VRes(d, n, Scale(Ket(n, b) \o Ket(n, [q \in 1..n |-> 1 - b[q]]), Sq), [k |-> "wvec"])
    [] k = "wvadd"  -> \E a \in Pick(VS) : \E b \in Pick(VLike(wv[a].n)) : \E d \in Pick(VS) :
         VRes(d, wv[a].n, Add(wv[a].t, wv[b].t), [k |-> k, a |-> a, b |-> b])
    [] k = "wid"    -> \E d \in Pick(MS) : \E n \in Pick(WidthM) : MRes(d, n, Ident(n), TRUE, [k |-> k])
    [] k = "wmat"   -> \E d \in Pick(MS) : \E n \in Pick(WidthM) : \E mode \in Pick({"any", "paths"}) :
         \E x \in {<<RandTermM(n, RandomElement(Coef), mode)>>} : MRes(d, n, Clean(x, <<>>), FALSE, [k |-> k])
    [] k = "wgate"  -> \E d \in Pick(MS) : \E n \in Pick(WidthM) : \E t \in QPick(n) : \E c \in {RandCtl(n, t)} :
         \E g \in Pick({AllGates[i] : i \in 1..Len(AllGates)}) :
         MRes(d, n, WGate(n, g, t, c), g \in Monomials \cup {GI}, [k |-> k, g |-> g, p |-> <<t>>, c |-> c])
    [] k = "wperm"  -> \E d \in Pick(MS) : \E n \in Pick(WidthM) : \E t \in QPick(n) : \E c \in {RandCtl(n, t)} : \E g \in Pick(Monomials) :
         MRes(d, n, WGate(n, g, t, c), TRUE, [k |-> "wgate", g |-> g, p |-> <<t>>, c |-> c])
    [] k = "wmadd"  -> \E a \in Pick(MS) : \E b \in Pick(MLike(wm[a].n)) : \E d \in Pick(MS) :
         MRes(d, wm[a].n, Add(wm[a].t, wm[b].t), FALSE, [k |-> k, a |-> a, b |-> b])
    [] k = "wmv"    -> \E a \in Pick(MS) : IF VLike(wm[a].n) = {} THEN Nop ELSE \E b \in Pick(VLike(wm[a].n)) : \E d \in Pick(VS) :
         VRes(d, wm[a].n, Apply(wm[a].n, wm[a].t, wv[b].t, MV1), [k |-> k, a |-> a, b |-> b])
    [] k = "wmm"    -> \E a \in Pick(MS) : \E b \in Pick(MLike(wm[a].n)) : \E d \in Pick(MS) :
         MRes(d, wm[a].n, Apply(wm[a].n, wm[a].t, wm[b].t, MM1), wm[a].mono /\ wm[b].mono, [k |-> k, a |-> a, b |-> b])
    [] k = "wvkron" -> \E a \in Pick(VS) : LET B == {s \in VS : wv[s].n + wv[a].n <= WMax} IN
         IF B = {} THEN Nop ELSE \E b \in Pick(B) : \E d \in Pick(VS) :
         VRes(d, wv[a].n + wv[b].n, Kron(wv[a].t, wv[b].t), [k |-> k, a |-> a, b |-> b])
    [] k = "wmkron" -> \E a \in Pick(MS) : LET B == {s \in MS : wm[s].n + wm[a].n <= WMax} IN
         IF B = {} THEN Nop ELSE \E b \in Pick(B) : \E d \in Pick(MS) :
         MRes(d, wm[a].n + wm[b].n, Kron(wm[a].t, wm[b].t), wm[a].mono /\ wm[b].mono, [k |-> k, a |-> a, b |-> b])
    [] k = "wext"   -> \E a \in Pick(MS) : \E d \in Pick(MS) : \E h \in Pick({0, 1, (WMax - wm[a].n) \div 2, WMax - wm[a].n}) :
         \E l \in Pick({0, (WMax - wm[a].n - h) \div 2, WMax - wm[a].n - h}) :
         IF h > WMax - wm[a].n \/ l < 0 \/ wm[a].n + h + l > WMax THEN Nop ELSE
         MRes(d, wm[a].n + h + l, Kron(Ident(h), Kron(wm[a].t, Ident(l))), wm[a].mono, [k |-> k, a |-> a, p |-> <<h, l>>])
    [] k = "wtrans" -> \E a \in Pick(MS) : \E d \in Pick(MS) : MRes(d, wm[a].n, Each(wm[a].t, Tr1), wm[a].mono, [k |-> k, a |-> a])
    [] k = "wadj"   -> \E a \in Pick(MS) : \E d \in Pick(MS) : MRes(d, wm[a].n, Adj(wm[a].t), wm[a].mono, [k |-> k, a |-> a])
    [] k = "winner" -> \E a \in Pick(VS) : \E b \in Pick(VLike(wv[a].n)) : LET s == Inner(wv[a].n, wv[a].t, wv[b].t) IN
         IF s = Big THEN Nop ELSE SRes([k |-> k, a |-> a, b |-> b, s |-> s])
    [] k = "wfid"   -> \E a \in Pick(VS) : \E b \in Pick(VLike(wv[a].n)) : LET s == Inner(wv[a].n, wv[a].t, wv[b].t) IN
         IF s = Big \/ PMul(s, s) = Big THEN Nop ELSE SRes([k |-> k, a |-> a, b |-> b, s |-> CMag2(s)])
    \* sum over the listed outcomes of |amplitude| * q / 4; outcomes as concatenated bit sequences, qubit 0 first
    [] k = "wfidm"  -> \E a \in Pick(VS) :
         IF wv[a].n > 63 \/ wv[a].t = <<>> THEN Nop ELSE
         \E P \in {TLCEval([j \in 1..6 |-> IF j = 6 THEN RandBits(wv[a].n)
                      ELSE LET u == wv[a].t[RandomElement(1..Len(wv[a].t))] IN
                           TLCEval([q \in 1..wv[a].n |-> IF u.f[q][1] = Zero THEN 1 ELSE IF u.f[q][2] = Zero THEN 0 ELSE RandomElement({0, 1})])])} :
         LET am == [j \in 1..6 |-> Amp(wv[a].n, wv[a].t, P[j])] IN
         IF \E j \in 1..6 : am[j] = Big \/ PMul(am[j], am[j]) = Big THEN Nop ELSE
         SRes([k |-> k, a |-> a, n |-> wv[a].n, c |-> SeqConcat(P), q |-> [j \in 1..6 |-> RandomElement(1..4)], m2 |-> [j \in 1..6 |-> CMag2(am[j])]])
    [] k = "wread"  -> \E a \in Pick(VS) : IF wv[a].t = <<>> THEN Nop ELSE
         \E P \in {TLCEval([j \in 1..6 |-> IF j = 6 THEN RandBits(wv[a].n)
                      ELSE LET u == wv[a].t[RandomElement(1..Len(wv[a].t))] IN
                           TLCEval([q \in 1..wv[a].n |-> IF u.f[q][1] = Zero THEN 1 ELSE IF u.f[q][2] = Zero THEN 0 ELSE RandomElement({0, 1})])])} :
         LET am == [j \in 1..6 |-> Amp(wv[a].n, wv[a].t, P[j])] IN
         IF \E j \in 1..6 : am[j] = Big THEN Nop ELSE SRes([k |-> k, a |-> a, n |-> wv[a].n, c |-> SeqConcat(P), e |-> am])
    [] k = "wmread" -> \E a \in Pick(MS) : IF wm[a].t = <<>> THEN Nop ELSE
         \E P \in {TLCEval([j \in 1..6 |-> LET u == wm[a].t[RandomElement(1..Len(wm[a].t))] IN
                           TLCEval([q \in 1..wm[a].n |-> IF j = 6 THEN RandomElement(0..3) ELSE RandomElement({x \in 0..3 : u.f[q][x + 1] # Zero})])])} :
         LET am == [j \in 1..6 |-> Amp(wm[a].n, wm[a].t, P[j])] IN
         IF \E j \in 1..6 : am[j] = Big THEN Nop ELSE SRes([k |-> k, a |-> a, n |-> wm[a].n, c |-> SeqConcat(P), e |-> am])
    [] k = "wexpv"  -> \E a \in Pick(MS) : IF VLike(wm[a].n) = {} THEN Nop ELSE \E b \in Pick(VLike(wm[a].n)) :
         LET H == Add(wm[a].t, Adj(wm[a].t))
             s == Inner(wm[a].n, wv[b].t, Apply(wm[a].n, H, wv[b].t, MV1))
         IN IF ~OKM(wm[a].n, H) \/ s = Big \/ H = <<>> \/ wv[b].t = <<>> THEN Nop
            ELSE /\ NoV /\ wm' = [wm EXCEPT ![a] = [n |-> wm[a].n, t |-> H, mono |-> FALSE]]
                 /\ Log([k |-> k, a |-> a, b |-> b, d |-> a, s |-> s] @@ Terms(wm[a].n, H))
    [] k = "wtrace" -> \E a \in Pick(MS) : LET s == WTrace(wm[a].n, wm[a].t) IN
         IF s = Big \/ TracePaths(wm[a].n, wm[a].t) > 12 THEN Nop ELSE SRes([k |-> k, a |-> a, s |-> s])
    [] k = "wptrace" -> \E a \in Pick(MS) : \E d \in Pick(MS) : \E E \in {Some(wm[a].n) \cup Few(wm[a].n)} :
         LET r == WPTrace(wm[a].n, wm[a].t, E) IN
         IF AllPaths(wm[a].n, wm[a].t) > 10 \/ Cardinality(E) = wm[a].n \/ \E i \in 1..Len(r) : r[i].c = Big THEN Nop ELSE
         MRes(d, wm[a].n - Cardinality(E), Clean(r, <<>>), FALSE, [k |-> k, a |-> a, p |-> [q \in 1..wm[a].n |-> IF q \in E THEN 1 ELSE 0]])
    [] k = "wisid"  -> \E a \in Pick(MS) : LET t == wm[a].t IN
         IF t = <<>> \/ ~wm[a].mono \/ Len(t) > 2 \/ (Len(t) = 2 /\ ScalarTerm(t[1]) = ScalarTerm(t[2])) THEN Nop ELSE
         SRes([k |-> k, a |-> a, t |-> IF Len(t) = 1 /\ ScalarTerm(t[1]) THEN 1 ELSE 0])
    [] k = "wvdel"  -> \E a \in Pick(VS) : \E d \in Pick(VS) : \E q \in QPick(wv[a].n) : \E i \in Pick({0, 1}) :
         VRes(d, wv[a].n, AtQ(wv[a].t, q, LAMBDA f : IF i = 0 THEN <<Zero, f[2]>> ELSE <<f[1], Zero>>), [k |-> k, a |-> a, p |-> <<q, i>>])
    [] k = "wmdel"  -> \E a \in Pick(MS) : \E d \in Pick(MS) : \E q \in QPick(wm[a].n) : \E i \in Pick(0..3) :
         MRes(d, wm[a].n, AtQ(wm[a].t, q, LAMBDA f : [f EXCEPT ![i + 1] = Zero]), FALSE, [k |-> k, a |-> a, p |-> <<q, i>>])
    [] k \in {"wvser", "wvtran"} -> \E a \in Pick(VS) : \E d \in Pick(VS) : \E b \in Pick({0, 1}) : VRes(d, wv[a].n, wv[a].t, [k |-> k, a |-> a, p |-> <<b>>])
    [] k \in {"wmser", "wmtran"} -> \E a \in Pick(MS) : \E d \in Pick(MS) : \E b \in Pick({0, 1}) : MRes(d, wm[a].n, wm[a].t, wm[a].mono, [k |-> k, a |-> a, p |-> <<b>>])
    [] k = "wprobs" -> IF UnitV = {} THEN Nop ELSE \E a \in Pick(UnitV) : \E q \in QPick(wv[a].n) :
         LET P(o) == LET x == AtQ(wv[a].t, q, LAMBDA f : IF o = 1 THEN <<Zero, f[2]>> ELSE <<f[1], Zero>>) IN Inner(wv[a].n, x, x) IN
         IF P(0) = Big \/ P(1) = Big THEN Nop ELSE SRes([k |-> k, a |-> a, p |-> <<q>>, s |-> P(0), s2 |-> P(1)])
    [] k = "wmeas"  -> IF UnitV = {} THEN Nop ELSE \E a \in Pick(UnitV) : \E q \in QPick(wv[a].n) : \E o \in Pick({0, 1}) :
         LET x == AtQ(wv[a].t, q, LAMBDA f : IF o = 1 THEN <<Zero, f[2]>> ELSE <<f[1], Zero>>)
             p == Inner(wv[a].n, x, x)
         IN IF p = Big \/ p = Zero \/ ~InvSqrtOK(p) THEN Nop
            ELSE VRes(a, wv[a].n, Scale(x, InvSqrt(p)), [k |-> k, a |-> a, p |-> <<q, o>>, s |-> p])
    [] k = "wmeasall" -> IF UnitV = {} THEN Nop ELSE \E a \in Pick(UnitV) :
         \E b \in {LET u == wv[a].t[RandomElement(1..Len(wv[a].t))] IN TLCEval([q \in 1..wv[a].n |-> IF u.f[q][1] = Zero THEN 1 ELSE IF u.f[q][2] = Zero THEN 0 ELSE RandomElement({0, 1})])} :
         LET am == Amp(wv[a].n, wv[a].t, b) IN IF am = Big \/ am = Zero THEN Nop ELSE
         VRes(a, wv[a].n, Ket(wv[a].n, b), [k |-> k, a |-> a, p |-> b, s |-> am])
    [] k = "wanc"   -> \E a \in Pick(MS) : \E A \in {Some(wm[a].n)} : \E g \in Pick({TRUE, FALSE}) :
         IF ~FewSteps(wm[a].n, wm[a].t) THEN Nop ELSE MRes(a, wm[a].n, Clean(TLCEval([i \in 1..Len(wm[a].t) |-> [wm[a].t[i] EXCEPT !.f = TLCEval([q \in 1..wm[a].n |->
                LET f == wm[a].t[i].f[q] IN IF q \notin A THEN f ELSE IF g THEN <<f[1], Zero, f[3], Zero>> ELSE <<f[1], f[2], Zero, Zero>>])]]), <<>>),
              FALSE, [k |-> k, a |-> a, p |-> [q \in 1..wm[a].n |-> IF q \in A THEN 1 ELSE 0], b |-> IF g THEN 1 ELSE 0])
    [] k = "wgarb"  -> \E a \in Pick(MS) : \E A \in {Some(wm[a].n)} : \E g \in Pick({TRUE, FALSE}) : IF ~wm[a].mono \/ ~FewSteps(wm[a].n, wm[a].t) THEN Nop ELSE
         MRes(a, wm[a].n, Clean(TLCEval([i \in 1..Len(wm[a].t) |-> [wm[a].t[i] EXCEPT !.f = TLCEval([q \in 1..wm[a].n |->
                LET f == wm[a].t[i].f[q] IN IF q \notin A THEN f
                  ELSE IF g THEN <<CAdd(f[1], f[3]), CAdd(f[2], f[4]), Zero, Zero>> ELSE <<CAdd(f[1], f[2]), Zero, CAdd(f[3], f[4]), Zero>>])]]), <<>>),
              FALSE, [k |-> k, a |-> a, p |-> [q \in 1..wm[a].n |-> IF q \in A THEN 1 ELSE 0], b |-> IF g THEN 1 ELSE 0])
    [] k = "winit"  -> \E d \in Pick(MS) : \E n \in Pick(WidthM) : \E A \in {Some(n)} :
         MRes(d, n, <<[c |-> One, f |-> [q \in 1..n |-> IF q \in A THEN <<One, Zero, Zero, Zero>> ELSE GI]]>>, FALSE, [k |-> k, p |-> [q \in 1..n |-> IF q \in A THEN 1 ELSE 0]])
    \* two operators applied to a new density matrix |0..0><0..0|: what comes out is |psi><psi|, psi = b a |0..0>
    [] k = "wdens"  -> \E a \in Pick(MS) : \E b \in Pick(MLike(wm[a].n)) :
         IF wm[a].n > 7 THEN Nop ELSE
         \E x \in {Apply(wm[a].n, wm[a].t, Ket(wm[a].n, [q \in 1..wm[a].n |-> 0]), MV1)} :
         IF ~OKV(wm[a].n, x) \/ x = <<>> THEN Nop ELSE
         \E y \in {Apply(wm[a].n, wm[b].t, x, MV1)} :
         IF ~OKV(wm[a].n, y) \/ Inner(wm[a].n, y, y) \in {Zero, Big} THEN Nop ELSE SRes([k |-> k, a |-> a, b |-> b] @@ Terms(wm[a].n, y))
    [] k = "gc" -> SRes([k |-> k, p |-> <<RandomElement({0, 1})>>])

Init == \E n \in WidthSet : \E c \in {n, WMax} :
        /\ wv = [s \in VS |-> [n |-> n, t |-> Ket(n, [q \in 1..n |-> 0])]]
        /\ wm = [s \in MS |-> [n |-> n, t |-> Ident(n), mono |-> TRUE]]
        /\ hist = << [k |-> "begin", n |-> n, p |-> <<n, KV, KM, WMax, c>>] >>
Next == Len(hist) <= Depth /\ \E i \in Pick(1..Len(KindsX)) : Do(KindsX[i])
Spec == Init /\ [][Next]_vars
TypeOK == /\ \A s \in VS : OKV(wv[s].n, wv[s].t) /\ \A i \in 1..Len(wv[s].t) : Len(wv[s].t[i].f) = wv[s].n
          /\ \A s \in MS : OKM(wm[s].n, wm[s].t) /\ \A i \in 1..Len(wm[s].t) : Len(wm[s].t[i].f) = wm[s].n
Emit == \/ Len(hist) <= Depth \/ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUTFILE)
=============================================================================
