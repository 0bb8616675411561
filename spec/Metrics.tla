------------------------------ MODULE Metrics ------------------------------
(* Metric values, operations and how they are merged.                       *)
(*                                                                          *)
(* A metric value is a record                                               *)
(*   l : label map as the sequence of <<key, value>> pairs sorted by key    *)
(*   s, e : start and end time, <<>> when absent or <<billions of seconds,  *)
(*          seconds, nanos>> (the first of either sign)                     *)
(*   k : "none" | "bool" | "int64" | "double" | "string" | "dist"           *)
(*   w : the number (int64; double, scaled to the grid of the scenarios)    *)
(*   t : the text of a bool or string;  r : the text of every other field   *)
(*   d : <<>> or, for "dist", a distribution: see below                     *)
(* An operation is a record                                                 *)
(*   id, name, cons : operation id, operation name, consumer id             *)
(*   imp : "LOW" or another importance;  r : text of every other field      *)
(*   s, e, l : as above;  logs : sequence of texts                          *)
(*   m : sequence of [n |-> metric name, vs |-> sequence of metric values]  *)
EXTENDS Wide, TLC, SequencesExt

TsVal(t) == IF t = <<>> THEN <<0, 0, 0>> ELSE t
TsBefore(a, b) ==
  LET x == TsVal(a)
      y == TsVal(b)
  IN WLess(x, y)

\* Hull of time ranges: the earlier start, the later end; absent is neutral.
MinStart(from, to) == IF from # <<>> /\ (to = <<>> \/ TsBefore(from, to))
                      THEN from ELSE to
MaxEnd(from, to)   == IF from # <<>> /\ (to = <<>> \/ TsBefore(to, from))
                      THEN from ELSE to

----------------------------------------------------------------------------
(* Distributions, represented by their sufficient statistics               *)
(*   <<count, sum, sum of squares, minimum, maximum, buckets, options>>     *)
(* with wide numbers on the grid of the scenarios, the bucket counts as a   *)
(* sequence of wide numbers and the bucket options as a text.               *)
DistMergeOk(from, to) ==
  from[7] # "none" /\ from[7] = to[7] /\ Len(from[6]) = Len(to[6])

DistMerge(from, to) ==
  IF ~DistMergeOk(from, to) \/ WLeq(from[1], WZero) THEN to
  ELSE IF WLeq(to[1], WZero) THEN from
  ELSE <<WAdd(to[1], from[1]), WAdd(to[2], from[2]), WAdd(to[3], from[3]),
         WMin(to[4], from[4]), WMax(to[5], from[5]),
         [i \in DOMAIN to[6] |-> WAdd(to[6][i], from[6][i])], to[7]>>

----------------------------------------------------------------------------
MergeDelta(from, to) ==
  IF from.k # to.k THEN to
  ELSE [to EXCEPT
          !.s = MinStart(from.s, @),
          !.e = MaxEnd(from.e, @),
          !.w = IF to.k \in {"int64", "double"} THEN WAdd(@, from.w) ELSE @,
          !.d = IF to.k = "dist" THEN DistMerge(from.d, @) ELSE @]

\* GAUGE and CUMULATIVE: the value with the later end time.
MergeLatest(from, to) == IF TsBefore(from.e, to.e) THEN to ELSE from

MergeMV(kind, from, to) == IF kind = "DELTA" THEN MergeDelta(from, to)
                           ELSE MergeLatest(from, to)

\* kinds is a sequence of <<metric name, kind>>; DELTA when not listed.
KindOf(kinds, name) ==
  LET hit == SelectSeq(kinds, LAMBDA p : p[1] = name)
  IN IF hit = <<>> THEN "DELTA" ELSE hit[1][2]

EmptyMap == [x \in {} |-> <<>>]
Put(f, k, v) == (k :> v) @@ f

\* acc: metric name -> label map -> metric value
MergeSet(acc, set, kind) ==
  LET old == IF set.n \in DOMAIN acc THEN acc[set.n] ELSE EmptyMap
      one(f, mv) == IF mv.l \in DOMAIN f
                    THEN Put(f, mv.l, MergeMV(kind, mv, f[mv.l]))
                    ELSE Put(f, mv.l, mv)
  IN Put(acc, set.n, FoldLeft(one, old, set.vs))

MergeSets(acc, sets, kinds) ==
  FoldLeft(LAMBDA f, set : MergeSet(f, set, KindOf(kinds, set.n)), acc, sets)

\* An aggregated operation: the first operation's fields, and the merged rest.
NewAgg(op, kinds) ==
  [id |-> op.id, name |-> op.name, cons |-> op.cons, imp |-> op.imp,
   r |-> op.r, l |-> op.l, s |-> op.s, e |-> op.e, logs |-> op.logs,
   m |-> MergeSets(EmptyMap, op.m, kinds)]

AddToAgg(agg, op, kinds) ==
  [agg EXCEPT !.s = MinStart(op.s, @),
              !.e = MaxEnd(op.e, @),
              !.logs = @ \o op.logs,
              !.m = MergeSets(@, op.m, kinds)]

\* The aggregated form of an operation seen on the wire, for comparison: order
\* of the sets and values is immaterial, a repeated one is an error.
WireSet(f, mv) == IF mv.l \in DOMAIN f THEN Put(f, <<<<"DUPLICATE", "">>>>, mv)
                  ELSE Put(f, mv.l, mv)
WireSets(sets) ==
  FoldLeft(LAMBDA f, set :
             IF set.n \in DOMAIN f THEN Put(f, "DUPLICATE", EmptyMap)
             ELSE Put(f, set.n, FoldLeft(WireSet, EmptyMap, set.vs)),
           EmptyMap, sets)
WireAgg(op) ==
  [id |-> op.id, name |-> op.name, cons |-> op.cons, imp |-> op.imp,
   r |-> op.r, l |-> op.l, s |-> op.s, e |-> op.e, logs |-> op.logs,
   m |-> WireSets(op.m)]

----------------------------------------------------------------------------
(* Quota operations: method, cons, mode, id, l, r; m as above with exactly  *)
(* one value per set. Tokens are merged per metric name.                    *)
MergeQuotaMV(from, to) ==
  IF from.k # to.k THEN to
  ELSE [to EXCEPT !.s = MinStart(from.s, @),
                  !.e = MaxEnd(from.e, @),
                  !.w = IF to.k = "int64" THEN WAdd(@, from.w) ELSE @]

MergeQuotaSets(acc, sets) ==
  FoldLeft(LAMBDA f, set :
             IF set.n \in DOMAIN f
             THEN Put(f, set.n, MergeQuotaMV(set.vs[1], f[set.n]))
             ELSE Put(f, set.n, set.vs[1]),
           acc, sets)

NewQuotaAgg(op) ==
  [id |-> op.id, method |-> op.method, cons |-> op.cons, mode |-> op.mode,
   l |-> op.l, r |-> op.r, m |-> MergeQuotaSets(EmptyMap, op.m)]
AddToQuotaAgg(agg, op) == [agg EXCEPT !.m = MergeQuotaSets(@, op.m)]

\* As sent: metric name -> the values of all its sets (one when aggregated).
AsSent(agg) == [agg EXCEPT !.m = [n \in DOMAIN @ |-> <<@[n]>>]]
WireQuotaAgg(op) ==
  [id |-> op.id, method |-> op.method, cons |-> op.cons, mode |-> op.mode,
   l |-> op.l, r |-> op.r,
   m |-> FoldLeft(LAMBDA f, set :
                    Put(f, set.n, (IF set.n \in DOMAIN f THEN f[set.n] ELSE <<>>)
                                  \o set.vs),
                  EmptyMap, op.m)]
=============================================================================
