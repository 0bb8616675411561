------------------------------- MODULE Money -------------------------------
(* Amounts of money: [cur, u, n] with wide units and nanos.                 *)
EXTENDS Wide

Nanos == WOf(1000000000)

\* An amount as <<units, nanos>> with 0 <= nanos < 10^9, whatever the signs.
Floor(m) == LET n == m.n[3] + (IF m.n[1] < 0 THEN -WBase ELSE 0)
            IN IF n >= 0 THEN <<m.u, n>> ELSE <<WAdd(m.u, WOf(-1)), n + WBase>>
\* The nanos of a valid amount fit: |n| < 10^9.
NanosOk(m) == WLess(WNeg(Nanos), m.n) /\ WLess(m.n, Nanos)

Sign(m) == IF m.u # WZero THEN WSign(m.u) ELSE WSign(m.n)

Valid(m) ==
  /\ Len(m.cur) = 3
  /\ NanosOk(m)
  /\ ~(WSign(m.u) * WSign(m.n) < 0)

FloorAdd(x, y) ==
  LET n == x[2] + y[2]
  IN <<WAdd(WAdd(x[1], y[1]), WOf(n \div WBase)), n % WBase>>

\* Units and nanos of the same sign.
Canonical(cur, f) ==
  IF WSign(f[1]) < 0 /\ f[2] > 0
  THEN [cur |-> cur, u |-> WAdd(f[1], WOf(1)), n |-> WOf(f[2] - WBase)]
  ELSE [cur |-> cur, u |-> f[1], n |-> WOf(f[2])]

\* The sum of two valid amounts: status and result.
Add(a, b) ==
  IF a.cur # b.cur
  THEN [st |-> "INVALID_ARGUMENT", sum |-> [cur |-> "", u |-> WZero, n |-> WZero]]
  ELSE LET s == Canonical(a.cur, FloorAdd(Floor(a), Floor(b)))
       IN IF InI64(s.u) THEN [st |-> "OK", sum |-> s]
          ELSE [st |-> "OUT_OF_RANGE",
                sum |-> IF WSign(s.u) > 0
                        THEN [cur |-> a.cur, u |-> I64Max, n |-> WOf(999999999)]
                        ELSE [cur |-> a.cur, u |-> I64Min, n |-> WOf(-999999999)]]
=============================================================================
