------------------------------- MODULE Gates -------------------------------
(***************************************************************************)
(* Gate diagrams.                                                          *)
(*                                                                         *)
(* Part 1: where each entry of a (controlled) one- or two-qubit matrix     *)
(* appears in the operator on n qubits: every position (r, c) holds zero,  *)
(* one, or a certain entry of the matrix.  This does not depend on the     *)
(* matrix, so that exhaustive enumeration of targets, controls and offsets *)
(* covers all matrices; the implementation is evaluated with many.         *)
(*                                                                         *)
(* Part 2: the matrices of the named gates, for all angles: each entry is  *)
(* a sum of terms  coef * exp(i (e1 x1 + e2 x2 + e3 x3) / 2)  of the       *)
(* angles x1, x2, x3.                                                      *)
(***************************************************************************)
EXTENDS Denote, Json, CSV, IOUtils, Randomization

\* symbols: 0 zero, 1 one, 2 + i the entry i of the matrix (row-major)
CtlHold(c, b, T) == \A q \in 0..(Len(c)-1) :
                       \/ c[q+1] = 0
                       \/ Bit(b, q) = (IF c[q+1] = 1 THEN 1 ELSE 0)
Clear(b, T) == IF Len(T) = 1 THEN SetBit(b, T[1], 0) ELSE SetBit(SetBit(b, T[1], 0), T[2], 0)
Idx(b, T) == IF Len(T) = 1 THEN Bit(b, T[1]) ELSE 2 * Bit(b, T[1]) + Bit(b, T[2])
Sym(T, c, row, col) ==
  IF CtlHold(c, Clear(col, T), T) /\ CtlHold(c, Clear(row, T), T)
  THEN IF Clear(row, T) = Clear(col, T) THEN 2 + (2^Len(T)) * Idx(row, T) + Idx(col, T) ELSE 0
  ELSE IF row = col THEN 1 ELSE 0
Table(n, T, c) == LET N == 2^n IN [i \in 1..(N*N) |-> Sym(T, c, (i-1) \div N, (i-1) % N)]

\* the same by qubits, for operators too large to write down: row and column are sequences of bits
SymPath(n, T, c, row, col) ==
  LET hold(s) == \A q \in 1..n : c[q] = 0 \/ s[q] = (IF c[q] = 1 THEN 1 ELSE 0)
      tq == {T[i] + 1 : i \in 1..Len(T)}
      idx(s) == IF Len(T) = 1 THEN s[T[1]+1] ELSE 2 * s[T[1]+1] + s[T[2]+1]
  IN IF hold(row) /\ hold(col)
     THEN IF \A q \in (1..n) \ tq : row[q] = col[q] THEN 2 + (2^Len(T)) * idx(row) + idx(col) ELSE 0
     ELSE IF row = col THEN 1 ELSE 0

\* ---------------------------------------------------------------- named gates
E0 == <<0, 0, 0>>
K(x) == << <<x, E0>> >>                                  \* constant
Zt == <<>>
CosT  == << <<Half, <<1,0,0>>>>, <<Half, <<-1,0,0>>>> >>           \* cos(x1/2)
ISin  == << <<Half, <<1,0,0>>>>, <<CNeg(Half), <<-1,0,0>>>> >>     \* i sin(x1/2)
SinT  == << <<CMul(MIm, Half), <<1,0,0>>>>, <<CMul(Im, Half), <<-1,0,0>>>> >>
Scl(x, t) == [i \in 1..Len(t) |-> <<CMul(x, t[i][1]), t[i][2]>>]
Ph(t, e)  == [i \in 1..Len(t) |-> <<t[i][1], <<t[i][2][1] + e[1], t[i][2][2] + e[2], t[i][2][3] + e[3]>>>>]
Konst(m) == [i \in 1..Len(m) |-> IF m[i] = Zero THEN Zt ELSE K(m[i])]
PI == GI  PX == GX  PY == GY  PZ == GZ
\* exp(-i x1/2 P (x) Q) = cos - i sin P (x) Q
Rot2(P, Q) == LET PQ == MKron(1, P, 1, Q) ID == MIdent(2) IN
   [i \in 1..16 |-> (IF ID[i] = Zero THEN Zt ELSE CosT) \o (IF PQ[i] = Zero THEN Zt ELSE Scl(CNeg(PQ[i]), ISin))]
Rot1(P) == [i \in 1..4 |-> (IF GI[i] = Zero THEN Zt ELSE CosT) \o (IF P[i] = Zero THEN Zt ELSE Scl(CNeg(P[i]), ISin))]
Perm4(f) == [i \in 1..16 |-> IF f[((i-1) % 4) + 1] = (i-1) \div 4 THEN K(One) ELSE Zt]   \* column c goes to row f(c)
At4(pairs) == [i \in 1..16 |-> IF \E p \in DOMAIN pairs : p = i - 1 THEN pairs[i-1] ELSE Zt]
Swap  == Perm4(<<0, 2, 1, 3>>)
ISw(x)  == At4((0 :> K(One)) @@ (6 :> K(x)) @@ (9 :> K(x)) @@ (15 :> K(One)))
\* DCX: first target0 is flipped by target1, then target1 by target0
Dcx   == Perm4(<<0, 2, 3, 1>>)
\* Peres: target0 is flipped by target1, then target1 is negated; and the inverse
Peres == Perm4(<<1, 2, 3, 0>>)
PeresD == Perm4(<<3, 0, 1, 2>>)
\* ECR = (I (x) X - X (x) Y)/sqrt2 up to the order of the targets: X on target0, (X - Y) on target1
Ecr   == LET a == MKron(1, GX, 1, GI) b == MKron(1, GY, 1, GX) IN   \* (X (x) I - Y (x) X) / sqrt2
         [i \in 1..16 |-> LET x == CMul(Sq, CSub(a[i], b[i])) IN IF x = Zero THEN Zt ELSE K(x)]
\* exp(-i x1/4 (XX -/+ YY)) with phases of x2 on the coupled states
XXm == At4((0 :> CosT) @@ (15 :> CosT) @@ (5 :> K(One)) @@ (10 :> K(One)) @@
           (3 :> Ph(Scl(MOne, ISin), <<0,2,0>>)) @@ (12 :> Ph(Scl(MOne, ISin), <<0,-2,0>>)))
XXp == At4((5 :> CosT) @@ (10 :> CosT) @@ (0 :> K(One)) @@ (15 :> K(One)) @@
           (6 :> Ph(Scl(MOne, ISin), <<0,2,0>>)) @@ (9 :> Ph(Scl(MOne, ISin), <<0,-2,0>>)))
\* u3(lambda = x2, phi = x3, theta = x1)
U3 == << CosT, Ph(Scl(MOne, SinT), <<0,2,0>>), Ph(SinT, <<0,0,2>>), Ph(CosT, <<0,2,2>>) >>
U2 == << K(Sq), Ph(K(CNeg(Sq)), <<0,2,0>>), Ph(K(Sq), <<0,0,2>>), Ph(K(Sq), <<0,2,2>>) >>
Phase == << K(One), Zt, Zt, Ph(K(One), <<2,0,0>>) >>

Named == <<
  [name |-> "I", m |-> Konst(GI)], [name |-> "H", m |-> Konst(GH)], [name |-> "X", m |-> Konst(GX)],
  [name |-> "Y", m |-> Konst(GY)], [name |-> "Z", m |-> Konst(GZ)], [name |-> "S", m |-> Konst(GS)],
  [name |-> "Sdag", m |-> Konst(GSd)], [name |-> "T", m |-> Konst(GT)], [name |-> "Tdag", m |-> Konst(GTd)],
  [name |-> "SX", m |-> Konst(GSX)], [name |-> "SXdag", m |-> Konst(GSXd)], [name |-> "V", m |-> Konst(GV)],
  [name |-> "Vdag", m |-> Konst(GVd)],
  [name |-> "U3", m |-> U3], [name |-> "U2", m |-> U2], [name |-> "Phase", m |-> Phase],
  [name |-> "RX", m |-> Rot1(GX)], [name |-> "RY", m |-> Rot1(GY)], [name |-> "RZ", m |-> Rot1(GZ)],
  [name |-> "CX", m |-> Perm4(<<0, 1, 3, 2>>)],
  [name |-> "CZ", m |-> Konst(MKron(1, GI, 1, GI)) ],
  [name |-> "SWAP", m |-> Swap], [name |-> "iSWAP", m |-> ISw(Im)], [name |-> "iSWAPinv", m |-> ISw(MIm)],
  [name |-> "DCX", m |-> Dcx], [name |-> "Peres", m |-> Peres], [name |-> "Peresdag", m |-> PeresD],
  [name |-> "ECR", m |-> Ecr],
  [name |-> "RXX", m |-> Rot2(GX, GX)], [name |-> "RYY", m |-> Rot2(GY, GY)], [name |-> "RZZ", m |-> Rot2(GZ, GZ)],
  [name |-> "RZX", m |-> Rot2(GZ, GX)], [name |-> "XXMinusYY", m |-> XXm], [name |-> "XXPlusYY", m |-> XXp] >>

\* ---------------------------------------------------------------- enumeration
CONSTANTS Mode,     \* "one", "two", "named", "path"
          NMaxG,    \* largest number of qubits
          Starts    \* set of start offsets
VARIABLES rec, done
Flat(s) == LET RECURSIVE go(_, _)
               go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, acc \o s[i])
           IN go(1, <<>>)
Ctls(n, T) == {c \in [1..n -> 0..2] : \A i \in 1..Len(T) : c[T[i] + 1] = 0}
OneRec == \E n \in 1..NMaxG : \E t \in 0..(n-1) : \E c \in Ctls(n, <<t>>) : \E s \in Starts :
          rec = [k |-> "table", n |-> n, a |-> s, p |-> <<t>>, c |-> c, q |-> Table(n, <<t>>, c)]
TwoRec == \E n \in 2..NMaxG : \E t \in 0..(n-1) : \E u \in (0..(n-1)) \ {t} : \E c \in Ctls(n, <<t, u>>) : \E s \in Starts :
          rec = [k |-> "table", n |-> n, a |-> s, p |-> <<t, u>>, c |-> c, q |-> Table(n, <<t, u>>, c)]
\* the matrix of CZ is diagonal with a sign
Fix(r) == IF r.name = "CZ" THEN [r EXCEPT !.m = [i \in 1..16 |-> IF i \in {1, 6, 11} THEN K(One) ELSE IF i = 16 THEN K(MOne) ELSE Zt]] ELSE r
NamedRec == \E i \in 1..Len(Named) : rec = [k |-> "named", name |-> Named[i].name, w |-> Fix(Named[i]).m]
RandBits(n) == [i \in 1..n |-> RandomElement({0, 1})]
PathRec == \E n \in {RandomElement(IF RandomElement(0..3) = 0 THEN 100..128 ELSE 2..128)} :
           \E s \in {LET k == RandomElement(0..3) IN IF k = 0 THEN 0 ELSE IF k = 1 THEN 128 - n ELSE RandomElement(0..(128 - n))} :
           \E two \in {RandomElement({1, 2})} :
           \E T \in {LET t == RandomElement(0..(n-1)) IN IF two = 1 THEN <<t>> ELSE <<t, RandomElement((0..(n-1)) \ {t})>>} :
           \E dens \in {RandomElement({0, 1, 2, 8, 30, 100})} :
           \E c \in {[i \in 1..n |-> IF (\E j \in 1..Len(T) : T[j] + 1 = i) \/ RandomElement(0..99) >= dens THEN 0 ELSE RandomElement({1, 2})]} :
           \E P \in {[j \in 1..24 |->
                LET col == TLCEval([i \in 1..n |-> IF c[i] = 0 \/ RandomElement(0..(3 * n)) = 0 THEN RandomElement({0, 1}) ELSE IF c[i] = 1 THEN 1 ELSE 0])
                    flip == RandomElement(0..9)
                    row == TLCEval([i \in 1..n |-> IF (\E h \in 1..Len(T) : T[h] + 1 = i) THEN RandomElement({0, 1})
                                            ELSE IF flip = 0 /\ RandomElement(0..n) = 0 THEN 1 - col[i] ELSE col[i]])
                IN [i \in 1..n |-> 2 * row[i] + col[i]] \o << SymPath(n, T, c, row, col) >>]} :
           rec' = [k |-> "path", n |-> n, a |-> s, p |-> T, c |-> c, q |-> Flat(P)]
Init == /\ done = 0
        /\ CASE Mode = "one" -> OneRec [] Mode = "two" -> TwoRec [] Mode = "named" -> NamedRec
             [] OTHER -> rec = [k |-> "nothing"]
Next == IF Mode = "path" THEN PathRec /\ done' = done + 1 ELSE done = 0 /\ done' = 1 /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, done>>
Emit == (Mode = "path" /\ done = 0) \/ (Mode # "path" /\ done = 1) \/ CSVWrite("%1$s", <<ToJson(rec)>>, IOEnv.OUTFILE)

\* every row and column of the table of a unitary holds the entries a unitary needs: each position of
\* the matrix occurs exactly once per assignment of the other qubits that satisfies the controls
Count(n, c) == 2^(n - Len(rec.p) - Cardinality({q \in 1..n : c[q] # 0}))
TableOK == rec.k # "table" \/
           /\ \A e \in 2..(1 + 4^Len(rec.p)) : Cardinality({i \in 1..Len(rec.q) : rec.q[i] = e}) = Count(rec.n, rec.c)
           /\ Cardinality({i \in 1..Len(rec.q) : rec.q[i] = 1}) = 2^rec.n - (2^Len(rec.p)) * Count(rec.n, rec.c)
=============================================================================
