------------------------------- MODULE Cyclo -------------------------------
(***************************************************************************)
(* Exact arithmetic in D[w] = Z[w][1/2], w = e^{i pi/4}.                   *)
(*                                                                         *)
(* The value (a + b w + c w^2 + d w^3) / 2^k is the tuple <<a,b,c,d,k>>,   *)
(* kept in lowest terms, so equality of values is equality of tuples.      *)
(* sqrt(1/2) = (w - w^3)/2 and i = w^2 are elements, so the states and     *)
(* operators of Clifford+T circuits are represented exactly.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero == <<0, 0, 0, 0, 0>>
One  == <<1, 0, 0, 0, 0>>
MOne == <<-1, 0, 0, 0, 0>>
Im   == <<0, 0, 1, 0, 0>>
MIm  == <<0, 0, -1, 0, 0>>
W1   == <<0, 1, 0, 0, 0>>            \* e^{i pi/4}
W3   == <<0, 0, 0, 1, 0>>            \* e^{3 i pi/4}
W7   == <<0, 0, 0, -1, 0>>           \* e^{-i pi/4}
Half == <<1, 0, 0, 0, 1>>
Sq   == <<0, 1, 0, -1, 1>>           \* sqrt(1/2)
Rt2  == <<0, 1, 0, -1, 0>>           \* sqrt(2)

RECURSIVE CNorm(_, _, _, _, _)
CNorm(a, b, c, d, k) ==
  IF a = 0 /\ b = 0 /\ c = 0 /\ d = 0 THEN Zero
  ELSE IF k > 0 /\ a % 2 = 0 /\ b % 2 = 0 /\ c % 2 = 0 /\ d % 2 = 0
       THEN CNorm(a \div 2, b \div 2, c \div 2, d \div 2, k - 1)
       ELSE <<a, b, c, d, k>>

CAdd(x, y) ==
  IF x = Zero THEN y ELSE IF y = Zero THEN x
  ELSE IF x[5] >= y[5]
       THEN LET s == 2^(x[5] - y[5])
            IN CNorm(x[1] + s*y[1], x[2] + s*y[2], x[3] + s*y[3], x[4] + s*y[4], x[5])
       ELSE LET s == 2^(y[5] - x[5])
            IN CNorm(s*x[1] + y[1], s*x[2] + y[2], s*x[3] + y[3], s*x[4] + y[4], y[5])

CMul(x, y) ==
  IF x = Zero \/ y = Zero THEN Zero
  ELSE IF x = One THEN y ELSE IF y = One THEN x
  ELSE CNorm(x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
             x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
             x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
             x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1],
             x[5] + y[5])

CNeg(x)  == <<-x[1], -x[2], -x[3], -x[4], x[5]>>
CSub(x, y) == CAdd(x, CNeg(y))
CConj(x) == <<x[1], -x[4], -x[3], -x[2], x[5]>>      \* conj(w) = -w^3
CMag2(x) == CMul(x, CConj(x))
IsReal(x) == x[3] = 0 /\ x[2] = -x[4]

CSum(s) ==   \* sum of a sequence of values
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, CAdd(acc, s[i]))
  IN go(1, Zero)
=============================================================================
