---------------------------- MODULE Distribution ----------------------------
(* Distributions and their buckets. A distribution is                       *)
(*   [d |-> its statistics (see Metrics), kind |-> "none" | "exp" | "lin" | *)
(*    "expl", p |-> its bucket parameters]                                  *)
(* Numbers are integers on a grid: a real number times Grid.                *)
EXTENDS Metrics

Grid == 8

RECURSIVE WMul(_, _)
WMul(x, k) == IF k < 0 THEN WNeg(WMul(x, -k))
              ELSE IF k = 0 THEN WZero
              ELSE IF k % 2 = 1 THEN WAdd(x, WMul(x, k - 1))
              ELSE LET h == WMul(x, k \div 2) IN WAdd(h, h)
RECURSIVE WPow(_, _, _)
WPow(x, k, n) == IF n = 0 THEN x ELSE WPow(WMul(x, k), k, n - 1)

NoDist == [d |-> <<WZero, WZero, WZero, WZero, WZero, <<>>, "none">>,
           kind |-> "none", p |-> <<>>]

\* Are the bucket options acceptable? p: exp: number, growth, scale;
\* lin: number, width, offset; expl: the bounds.
OptionsOk(kind, p) ==
  CASE kind = "exp"  -> p[1] > 0 /\ p[2] > Grid /\ p[3] > 0
    [] kind = "lin"  -> p[1] > 0 /\ p[2] > 0
    [] kind = "expl" -> \A i, j \in DOMAIN p : i < j => p[i] < p[j]

Finite(kind, p) == IF kind = "expl" THEN Len(p) - 1 ELSE p[1] \div Grid
NumBuckets(kind, p) == Finite(kind, p) + 2

\* Is x at or above the lower bound of bucket i (1: the first finite one,
\* Finite + 1: the overflow bucket)?
AtLeast(kind, p, i, x) ==
  CASE kind = "exp" ->
         WLeq(WPow(WOf(p[3]), p[2], i - 1), WPow(WOf(x), Grid, i - 1))
    [] kind = "lin"  -> p[3] + (i - 1) * p[2] <= x
    [] kind = "expl" -> p[i] <= x

\* The index (from 0) of the bucket of x: the number of bounds not above x.
BucketOf(kind, p, x) ==
  Cardinality({i \in 1..(NumBuckets(kind, p) - 1) : AtLeast(kind, p, i, x)})

Count1(b, i) == [b EXCEPT ![i + 1] = WAdd(@, WOf(1))]

\* One sample; the statistics as those of all samples.
AddSample(v, x) ==
  LET d == v.d
      X == WOf(x)
      XX == WMul(X, x)
      first == d[1] = WZero
  IN [v EXCEPT !.d = <<WAdd(d[1], WOf(1)),
                       IF first THEN X ELSE WAdd(d[2], X),
                       IF first THEN XX ELSE WAdd(d[3], XX),
                       IF first THEN X ELSE WMin(d[4], X),
                       IF first THEN X ELSE WMax(d[5], X),
                       Count1(d[6], BucketOf(v.kind, v.p, x)), d[7]>>]

\* The infinities, not-a-number and huge values.
SpecialBucket(v, text) ==
  IF text \in {"inf", "1e300", "1e18"} THEN NumBuckets(v.kind, v.p) - 1 ELSE 0

\* The next number below or above the i-th bound, however close it is.
NearBucket(side, i) == IF side = "below" THEN i - 1 ELSE i
=============================================================================
