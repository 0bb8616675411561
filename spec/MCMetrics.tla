------------------------------ MODULE MCMetrics ------------------------------
(* Operations merged in a report cache: all short sequences of values of a  *)
(* metric, in operations, sets and values; the merged operation is compared *)
(* with what its values together are. Every sequence is executed.           *)
EXTENDS Metrics, FiniteSets, Json

CONSTANTS MaxSteps, Show     \* number of values; 3: fewer variants of the third

VARIABLES kind,       \* of metric m; n is a DELTA metric
          ops,        \* the operations, each with what it was written from
          path, ok

\* Distributions as statistics on the grid (times 8), and as text.
Dists == [
  one   |-> [d |-> <<WOf(1), WOf(16), WOf(256), WOf(16), WOf(16), <<WOf(0), WOf(1), WOf(0)>>, "L">>,
             t |-> "count: 1 mean: 2 minimum: 2 maximum: 2 bucket_counts: 0 bucket_counts: 1 bucket_counts: 0 linear_buckets { num_finite_buckets: 1 width: 2 offset: 1 }"],
  two   |-> [d |-> <<WOf(2), WOf(32), WOf(640), WOf(8), WOf(24), <<WOf(0), WOf(1), WOf(1)>>, "L">>,
             t |-> "count: 2 mean: 2 sum_of_squared_deviation: 2 minimum: 1 maximum: 3 bucket_counts: 0 bucket_counts: 1 bucket_counts: 1 linear_buckets { num_finite_buckets: 1 width: 2 offset: 1 }"],
  other |-> [d |-> <<WOf(1), WOf(16), WOf(256), WOf(16), WOf(16), <<WOf(0), WOf(1), WOf(0)>>, "E">>,
             t |-> "count: 1 mean: 2 minimum: 2 maximum: 2 bucket_counts: 0 bucket_counts: 1 bucket_counts: 0 explicit_buckets { bounds: 1 bounds: 3 }"]]

\* What is measured: kind, number (doubles times 8), text.
Plain(k, n, t) == [k |-> k, w |-> WOf(n), d |-> <<>>, t |-> t]
Measured == {Plain("int64", 1, "int64_value: 1"), Plain("int64", 7, "int64_value: 7"),
             Plain("double", 12, "double_value: 1.5"), Plain("string", 0, "string_value: \"s\"")} \cup
            {[k |-> "dist", w |-> WZero, d |-> Dists[x].d, t |-> "distribution_value { " \o Dists[x].t \o " }"] : x \in DOMAIN Dists}
\* Start and end, absent or <<seconds, nanos>>.
Times == {<<<<>>, <<>>>>, <<<<0, 1, 0>>, <<3, 0, 0>>>>, <<<<0, 0, 9>>, <<3, 0, 5>>>>, <<<<-1, 3, 0>>, <<>>>>}
AB == <<<<"a", "b">>>>
Values(n, l) == {[n |-> n, l |-> l, x |-> x, s |-> t[1], e |-> t[2]] : x \in Measured, t \in Times}
Main == Values("m", <<>>)
Side == {v \in Values("m", AB) \cup Values("n", <<>>) : v.x.w = WOf(7)}
Conf == <<<<"m", kind>>>>

\* How a value joins: in an operation of its own, in another set of the last
\* operation (perhaps of the same metric), in the last set.
Where(v, i) ==
  IF i = 1 THEN {"op"}
  ELSE IF i > 2 THEN {"op"}
  ELSE {"op", "set"} \cup (IF Last(Last(ops)).n = v.n THEN {"value"} ELSE {})

Join(v, how) ==
  LET set == [n |-> v.n, vs |-> <<v>>]
      o == Last(ops)
      k == Len(ops)
      j == Len(o)
  IN CASE how = "op"    -> Append(ops, <<set>>)
       [] how = "set"   -> [ops EXCEPT ![k] = Append(@, set)]
       [] how = "value" -> [ops EXCEPT ![k][j].vs = Append(@, v)]

\* As the specification has them. An operation has the times of its first value.
MV(v) == [l |-> v.l, s |-> v.s, e |-> v.e, k |-> v.x.k, w |-> v.x.w, t |-> v.x.t, r |-> "", d |-> v.x.d]
FirstOf(o) == o[1].vs[1]
Logs(o, i) == IF FirstOf(o).e = <<>> THEN <<>> ELSE <<ToString(i)>>
Op(o, i) == [id |-> ToString(i), name |-> "op", cons |-> "c", imp |-> "LOW", r |-> "", l |-> <<>>,
             s |-> FirstOf(o).s, e |-> FirstOf(o).e, logs |-> Logs(o, i),
             m |-> [j \in DOMAIN o |-> [n |-> o[j].n, vs |-> [i2 \in DOMAIN o[j].vs |-> MV(o[j].vs[i2])]]]]
Merged(q) == FoldLeft(LAMBDA a, i : IF i = 1 THEN NewAgg(Op(q[1], 1), Conf) ELSE AddToAgg(a, Op(q[i], i), Conf),
                      <<>>, [i \in DOMAIN q |-> i])

----------------------------------------------------------------------------
(* What the values together are.                                            *)
Says(name, holds) == IF holds THEN {} ELSE {name}
Flat(q) == FlattenSeq([i \in DOMAIN q |-> FlattenSeq([j \in DOMAIN q[i] |-> q[i][j].vs])])
Secs(t) == t[1] * 100000 + t[2] * 1000 + t[3]
Ends(S) == {Secs(t) : t \in S \ {<<>>}}
IsHull(r, vs) ==
  LET ss == Ends({vs[j].s : j \in DOMAIN vs})
      es == Ends({vs[j].e : j \in DOMAIN vs})
  IN /\ (r.s = <<>>) = (ss = {}) /\ (r.e = <<>>) = (es = {})
     /\ r.s = <<>> \/ (Secs(r.s) \in ss /\ \A x \in ss : Secs(r.s) <= x)
     /\ r.e = <<>> \/ (Secs(r.e) \in es /\ \A x \in es : Secs(r.e) >= x)
RECURSIVE Sum(_)
Sum(seq) == IF seq = <<>> THEN WZero ELSE WAdd(Head(seq), Sum(Tail(seq)))
Total(vs, i) == Sum([j \in DOMAIN vs |-> vs[j].x.d[i]])

OfSlot(vs, n, l) == SelectSeq(vs, LAMBDA v : v.n = n /\ v.l = l)
Additive(r, vs) ==
  LET same == SelectSeq(vs, LAMBDA v : v.x.k = vs[1].x.k)
      alike == SelectSeq(same, LAMBDA v : v.x.k # "dist" \/ v.x.d[7] = vs[1].x.d[7])
  IN Says("C10 type", r.k = vs[1].x.k) \cup
     Says("C10 hull", IsHull(r, same)) \cup
     Says("C10 sum", r.k \notin {"int64", "double"} \/ r.w = Sum([j \in DOMAIN same |-> same[j].x.w])) \cup
     Says("C10 first", r.k # "string" \/ r.t = vs[1].x.t) \cup
     Says("C10 samples", r.k # "dist" \/
            /\ \A i \in 1..3 : r.d[i] = Total(alike, i)
            /\ \A b \in DOMAIN r.d[6] : r.d[6][b] = Sum([j \in DOMAIN alike |-> alike[j].x.d[6][b]])
            /\ \A j \in DOMAIN alike : WLeq(r.d[4], alike[j].x.d[4]) /\ WLeq(alike[j].x.d[5], r.d[5])
            /\ r.d[7] = vs[1].x.d[7])
EndAt(v) == IF v.e = <<>> THEN 0 ELSE Secs(v.e)
Latest(r, vs) ==
  Says("C11 latest", \E j \in DOMAIN vs : /\ r = MV(vs[j])
                                          /\ \A i \in DOMAIN vs : IF i > j THEN EndAt(vs[i]) < EndAt(vs[j])
                                                                  ELSE EndAt(vs[i]) <= EndAt(vs[j]))
Judge(q) ==
  LET r == Merged(q)
      vs == Flat(q)
      slots == {<<vs[j].n, vs[j].l>> : j \in DOMAIN vs}
      of(p) == OfSlot(vs, p[1], p[2])
  IN Says("C09 C10 slots", {<<n, l>> \in {"m", "n"} \X {<<>>, AB} : n \in DOMAIN r.m /\ l \in DOMAIN r.m[n]} = slots) \cup
     UNION {IF p[1] = "m" /\ kind # "DELTA" THEN Latest(r.m[p[1]][p[2]], of(p)) ELSE Additive(r.m[p[1]][p[2]], of(p)) : p \in slots} \cup
     Says("C10 operation", IsHull(r, [i \in DOMAIN q |-> FirstOf(q[i])])) \cup
     Says("C09 first", r.id = "1") \cup
     Says("C10 logs", r.logs = FlattenSeq([i \in DOMAIN q |-> Logs(q[i], i)]))

----------------------------------------------------------------------------
Q(t) == "\"" \o t \o "\""
Cat(seq) == FoldLeft(LAMBDA t, x : t \o x, "", seq)
Ts(f, t) == IF t = <<>> THEN "" ELSE f \o " { seconds: " \o ToString(t[1]) \o " nanos: " \o ToString(t[2]) \o " } "
Span(v) == Ts("start_time", v.s) \o Ts("end_time", v.e)
ValueText(v) == "metric_values { " \o (IF v.l = <<>> THEN "" ELSE "labels { key: \"a\" value: \"b\" } ") \o v.x.t \o " " \o Span(v) \o "} "
SetText(s) == "metric_value_sets { metric_name: " \o Q(s.n) \o " " \o Cat([j \in DOMAIN s.vs |-> ValueText(s.vs[j])]) \o "} "
OpText(o, i) == "operations { operation_id: " \o Q(ToString(i)) \o " operation_name: \"op\" consumer_id: \"c\" " \o Span(FirstOf(o)) \o
                Cat([j \in DOMAIN o |-> SetText(o[j])]) \o
                (IF Logs(o, i) = <<>> THEN "" ELSE "log_entries { name: " \o Q(ToString(i)) \o " } ") \o "}"
Line(o, i) == LET n == ToString(i)
              IN "def report r" \o n \o " | service_name: \"svc\" " \o OpText(o, i) \o ";decl " \o n \o " report r" \o n \o " 0 0 0;call " \o n
Steps(q) == "kind m " \o kind \o ";new;" \o Cat([i \in DOMAIN q |-> Line(q[i], i) \o ";"]) \o "destroy"

ASSUME PrintT(<<"CONF", ToJson([comp |-> "metrics"])>>)

Init == kind \in {"DELTA", "GAUGE", "CUMULATIVE"} /\ ops = <<>> /\ path = <<>> /\ ok = {}
Next == /\ Len(Flat(ops)) < MaxSteps
        /\ LET i == Len(Flat(ops)) + 1
           IN /\ \E v \in (IF i = 2 THEN Main \cup Side ELSE Main) : \E how \in Where(v, i) : ops' = Join(v, how)
              /\ ok' = Judge(ops')
              /\ path' = <<Steps(ops')>>
              /\ IF ok' = {} THEN TRUE ELSE PrintT(<<"BAD", ok', path'>>)
              /\ IF Show /\ i = MaxSteps THEN PrintT(<<"PATH", ToJson(path')>>) ELSE TRUE
        /\ UNCHANGED kind
Good == ok' = {}
Spec == Init /\ [][Next]_<<kind, ops, path, ok>>
AllGood == [][Good]_<<kind, ops, path, ok>>
=============================================================================
