------------------------------- MODULE MCKeys -------------------------------
(* Identity of requests: every pair of variants of an operation, which      *)
(* differ in identifying fields, in the order in which these are written,   *)
(* and in fields that do not identify. A pair is executed: whether the      *)
(* second request shares the entry of the first is seen.                    *)
EXTENDS Keys, FiniteSets, Json

CONSTANTS MaxSteps, Show     \* MaxSteps > 4: more variants

VARIABLES one, path, ok

\* Labels as written: a sequence of pairs.
AB == <<<<"a", "b">>>>
Labels == {<<>>, AB, <<<<"b", "a">>>>, <<<<"a", "b">>, <<"b", "a">>>>, <<<<"b", "a">>, <<"a", "b">>>>, <<<<"a", "">>>>} \cup
          (IF MaxSteps > 4 THEN {<<<<"ab", "">>>>, <<<<"", "ab">>>>, <<<<"a", "b">>, <<"b", "">>>>} ELSE {})
\* Metrics as written: sequences of <<name, <<labels of its values>>>>.
Sets == {<<>>, <<<<"m1", <<<<>>>>>>>>, <<<<"m2", <<<<>>>>>>>>, <<<<"m1", <<<<>>>>>>, <<"m2", <<<<>>>>>>>>, <<<<"m2", <<<<>>>>>>, <<"m1", <<<<>>>>>>>>,
         <<<<"m1", <<AB>>>>>>} \cup
        (IF MaxSteps > 4
         THEN {<<<<"m1", <<AB, <<>>>>>>>>, <<<<"m1", <<AB>>>>, <<"m2", <<<<>>>>>>>>, <<<<"m2", <<<<>>>>>>, <<"m1", <<AB>>>>>>,
               <<<<"m1", <<AB>>>>, <<"m2", <<AB>>>>>>, <<<<"m12", <<<<>>>>>>>>}
         ELSE {})
Variants == [name : {"n", "m"}, cons : {"n", "m"}, l : Labels, m : Sets, vol : {1, 2}]
Kinds == {"check", "report", "quota"}

\* As the specification of the client has them: a map is sorted by its keys.
SortMap(l) == IF Len(l) = 2 /\ l[1][1] = "b" THEN <<l[2], l[1]>> ELSE l
ValueOf(l) == [l |-> SortMap(l)]
SpecOp(v) == [name |-> v.name, method |-> v.name, cons |-> v.cons, l |-> SortMap(v.l),
              m |-> [j \in DOMAIN v.m |-> [n |-> v.m[j][1], vs |-> [i \in DOMAIN v.m[j][2] |-> ValueOf(v.m[j][2][i])]]]]
KeyOf(k, v) == CASE k = "check" -> CheckKey(SpecOp(v)) [] k = "report" -> ReportKey(SpecOp(v))
                 [] k = "quota" -> QuotaKey(SpecOp(v))

\* What identifies, in terms of what a user means.
Map(l) == {l[j] : j \in DOMAIN l}
Metrics1(v) == {<<v.m[j][1], {Map(v.m[j][2][i]) : i \in DOMAIN v.m[j][2]} \ {{}}>> : j \in DOMAIN v.m}
Names(v) == {v.m[j][1] : j \in DOMAIN v.m}
Same(k, v, w) ==
  /\ v.name = w.name /\ v.cons = w.cons
  /\ k # "quota" => Map(v.l) = Map(w.l)
  /\ k = "check" => Metrics1(v) = Metrics1(w)
  /\ k = "quota" => Names(v) = Names(w)

----------------------------------------------------------------------------
Q(t) == "\"" \o t \o "\""
Cat(seq) == FoldLeft(LAMBDA t, x : t \o x, "", seq)
LabelText(l) == Cat([j \in DOMAIN l |-> "labels { key: " \o Q(l[j][1]) \o " value: " \o Q(l[j][2]) \o " } "])
MetricText(f, m, n) ==
  Cat([j \in DOMAIN m |-> f \o " { metric_name: " \o Q(m[j][1]) \o " " \o
        Cat([i \in DOMAIN m[j][2] |-> "metric_values { " \o LabelText(m[j][2][i]) \o "int64_value: " \o ToString(n) \o " } "]) \o "} "])
OpText(k, v) ==
  IF k = "quota"
  THEN "allocate_operation { operation_id: " \o Q(ToString(v.vol)) \o " method_name: " \o Q(v.name) \o " consumer_id: " \o Q(v.cons) \o " " \o
       LabelText(v.l) \o MetricText("quota_metrics", v.m, v.vol) \o "quota_mode: " \o (IF v.vol = 1 THEN "NORMAL" ELSE "BEST_EFFORT") \o " }"
  ELSE (IF k = "check" THEN "operation" ELSE "operations") \o " { operation_id: " \o Q(ToString(v.vol)) \o " operation_name: " \o Q(v.name) \o
       " consumer_id: " \o Q(v.cons) \o " start_time { seconds: " \o ToString(v.vol) \o " } " \o LabelText(v.l) \o
       MetricText("metric_value_sets", v.m, v.vol) \o
       (IF v.vol = 2 THEN "log_entries { name: \"x\" } " ELSE "") \o "}"
Line(k, v, n) == "def " \o k \o " r" \o n \o " | service_name: \"svc\" " \o OpText(k, v) \o ";decl " \o n \o " " \o k \o " r" \o n \o " 0 0 0;call " \o n
Steps(k, v, w) ==
  Line(k, v, "1") \o (IF k = "report" THEN "" ELSE ";fin " \o k \o " 0 OK -") \o ";" \o Line(k, w, "2") \o ";destroy"

ASSUME PrintT(<<"CONF", ToJson([comp |-> "keys"])>>)

Says(name, holds) == IF holds THEN {} ELSE {name}
\* Quota metrics have exactly one value.
Allowed(k, v) == k # "quota" \/ \A j \in DOMAIN v.m : Len(v.m[j][2]) = 1
Init == one \in Kinds \X Variants /\ one[2].vol = 1 /\ Allowed(one[1], one[2]) /\ path = <<>> /\ ok = {}
Next == /\ path = <<>>
        /\ \E w \in {v \in Variants : Allowed(one[1], v)} :
             /\ ok' = Says("C30 identity", Same(one[1], one[2], w) = (KeyOf(one[1], one[2]) = KeyOf(one[1], w)))
             \* most pairs differ in many ways; those are no use to execute
             /\ LET near == Cardinality({f \in {"name", "cons", "l", "m"} : one[2][f] # w[f]}) <= 1 \/
                            (one[2].name = w.cons /\ one[2].cons = w.name /\ one[2].m = w.m)
                IN path' = IF near THEN <<Steps(one[1], one[2], w)>> ELSE <<"">>
             /\ UNCHANGED one
             /\ IF ok' = {} THEN TRUE ELSE PrintT(<<"BAD", ok', one, w>>)
             /\ IF Show /\ path' # <<"">> THEN PrintT(<<"PATH", ToJson(path')>>) ELSE TRUE
View == <<one, path, ok>>
Good == ok' = {}
Spec == Init /\ [][Next]_<<one, path, ok>>
AllGood == [][Good]_<<one, path, ok>>
=============================================================================
