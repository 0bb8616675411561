------------------------------- MODULE Wide -------------------------------
(* 64-bit integers for TLC, whose own integers have 32 bits.                *)
(* A wide number is <<a, b, c>> with value a*10^18 + b*10^9 + c,            *)
(* 0 <= b, c < 10^9 and a of either sign ("floor" form), so equality of     *)
(* numbers is equality of triples and order is lexicographic.               *)
EXTENDS Integers, Sequences

WBase == 1000000000
WZero == <<0, 0, 0>>

WNorm(a, b, c) ==
  LET c1 == c % WBase
      b0 == b + (c \div WBase)
      b1 == b0 % WBase
  IN <<a + (b0 \div WBase), b1, c1>>

WOf(n) == WNorm(0, 0, n)                 \* from a TLC integer

WAdd(x, y) == WNorm(x[1] + y[1], x[2] + y[2], x[3] + y[3])
WNeg(x)    == WNorm(-x[1], -x[2], -x[3])
WSub(x, y) == WAdd(x, WNeg(y))

WLess(x, y) == \/ x[1] < y[1]
               \/ x[1] = y[1] /\ x[2] < y[2]
               \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
WLeq(x, y) == x = y \/ WLess(x, y)
WMin(x, y) == IF WLess(y, x) THEN y ELSE x
WMax(x, y) == IF WLess(x, y) THEN y ELSE x
WSign(x) == IF x = WZero THEN 0 ELSE IF x[1] < 0 THEN -1 ELSE 1

\* The range of int64.
I64Max == <<9, 223372036, 854775807>>
I64Min == WNeg(WAdd(I64Max, WOf(1)))
InI64(x) == WLeq(I64Min, x) /\ WLeq(x, I64Max)
=============================================================================
