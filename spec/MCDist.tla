------------------------------- MODULE MCDist -------------------------------
(* Two distributions with samples on and around the bounds of their buckets *)
(* and merges in both directions; what they hold is compared with the bag   *)
(* of the samples that got there.                                           *)
EXTENDS Distribution, Json

CONSTANTS MaxSteps, Show

VARIABLES x,          \* name -> distribution
          bag,        \* name -> sample -> number
          conf, path, ok

\* Bucket options, samples to add, and the bounds: on the grid (times 8).
Configs ==
  {<<"exp", <<16, 16, 8>>, {7, 8, 16, 31, 32}, <<8, 16, 32>>>>,       \* 2 buckets, growth 2, scale 1
   <<"exp", <<24, 12, 16>>, {16, 23, 25, 53, 55}, <<16, 24, 36, 54>>>>,        \* 3 buckets, growth 1.5, scale 2
   <<"lin", <<16, 8, -4>>, {-5, -4, 3, 4, 12}, <<-4, 4, 12>>>>,
   <<"lin", <<8, 4, 0>>, {-1, 0, 4, 9}, <<0, 4>>>>,
   <<"expl", <<0, 4, 20>>, {-1, 0, 4, 19, 20}, <<0, 4, 20>>>>,
   <<"expl", <<8>>, {7, 8}, <<8>>>>,
   <<"expl", <<>>, {-8, 0, 1}, <<>>>>}
Other == [exp |-> <<"exp", <<16, 24, 8>>>>, lin |-> <<"lin", <<16, 8, 0>>>>, expl |-> <<"expl", <<0, 5>>>>]

Make(kind, p) == [d |-> <<WZero, WZero, WZero, WZero, WZero, [j \in 1..NumBuckets(kind, p) |-> WZero], ToString(<<kind, p>>)>>,
                  kind |-> kind, p |-> p]
\* The second one has the same buckets, or others, or none.
Mates == {"same", "other", "none"}
Mate(cf, m) == CASE m = "same" -> Make(cf[1], cf[2])
                 [] m = "other" -> Make(Other[cf[1]][1], Other[cf[1]][2])
                 [] m = "none" -> NoDist

NoBag == [v \in {} |-> 0]
Plus(b, v, n) == IF v \in DOMAIN b THEN [b EXCEPT ![v] = @ + n] ELSE (v :> n) @@ b
RECURSIVE Join(_, _)
Join(b, c) == IF DOMAIN c = {} THEN b
              ELSE LET v == CHOOSE v \in DOMAIN c : TRUE
                   IN Join(Plus(b, v, c[v]), [w \in DOMAIN c \ {v} |-> c[w]])
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN f[v] + Total(f, S \ {v})

Says(name, holds) == IF holds THEN {} ELSE {name}

\* A distribution is that of the samples of a bag.
IsOf(d, b, bounds) ==
  LET S == DOMAIN b
      n == Total(b, S)
  IN Says("count", d.d[1] = WOf(n)) \cup
     Says("sum", n = 0 \/ d.d[2] = WOf(Total([v \in S |-> v * b[v]], S))) \cup
     Says("squares", n = 0 \/ d.d[3] = WOf(Total([v \in S |-> v * v * b[v]], S))) \cup
     Says("min", n = 0 \/ \E v \in S : d.d[4] = WOf(v) /\ \A w \in S : v <= w) \cup
     Says("max", n = 0 \/ \E v \in S : d.d[5] = WOf(v) /\ \A w \in S : v >= w) \cup
     \* every bucket counts the samples between its bounds: bucket 0 is below
     \* the first one, the last bucket from the last one on
     Says("buckets", bounds = <<-1000000>> \/ \A i \in 1..Len(d.d[6]) :
            d.d[6][i] = WOf(Total(b, {v \in S : (i = 1 \/ bounds[i - 1] <= v) /\
                                                (i = Len(d.d[6]) \/ v < bounds[i])}))) \cup
     Says("all", d.kind = "none" \/ n = Total([i \in DOMAIN d.d[6] |-> d.d[6][i][3]], DOMAIN d.d[6]))

\* The bounds grow, so that every value is in exactly one bucket.
ASSUME \A cf \in Configs : \A v \in cf[3] :
         \A i, j \in 1..(NumBuckets(cf[1], cf[2]) - 1) :
           i < j /\ AtLeast(cf[1], cf[2], j, v) => AtLeast(cf[1], cf[2], i, v)

Dec(v) == LET a == IF v < 0 THEN -v ELSE v
              f == <<"0", "125", "25", "375", "5", "625", "75", "875">>[(a % 8) + 1]
          IN (IF v < 0 THEN "-" ELSE "") \o ToString(a \div 8) \o "." \o f
InitLine(n, d) ==
  IF d.kind = "none" THEN ""
  ELSE "init " \o n \o " " \o d.kind \o
       (IF d.kind = "expl" THEN FoldLeft(LAMBDA t, v : t \o " " \o Dec(v), "", d.p)
        ELSE " " \o ToString(d.p[1] \div 8) \o " " \o Dec(d.p[2]) \o " " \o Dec(d.p[3])) \o ";"

ASSUME PrintT(<<"CONF", ToJson([comp |-> "dist"])>>)

Names == {"a", "b"}
Peer(n) == IF n = "a" THEN "b" ELSE "a"

Init == /\ conf \in Configs \X Mates
        /\ x = [n \in Names |-> IF n = "a" THEN Make(conf[1][1], conf[1][2]) ELSE Mate(conf[1], conf[2])]
        /\ bag = [n \in Names |-> NoBag]
        /\ path = <<InitLine("a", x["a"]) \o InitLine("b", x["b"]) \o "merge a b">>
        /\ ok = {}

Matches == conf[2] = "same"
AddV(n, v) ==
  /\ x' = IF x[n].kind = "none" THEN x ELSE [x EXCEPT ![n] = AddSample(@, v)]
  /\ bag' = IF x[n].kind = "none" THEN bag ELSE [bag EXCEPT ![n] = Plus(@, v, 1)]
  /\ path' = Append(path, "add " \o n \o " " \o Dec(v))
MergeTo(n) ==
  /\ x' = [x EXCEPT ![n].d = DistMerge(x[Peer(n)].d, @)]
  /\ bag' = IF Matches THEN [bag EXCEPT ![n] = Join(@, bag[Peer(n)])] ELSE bag
  /\ path' = Append(path, "merge " \o Peer(n) \o " " \o n)

Next == /\ Len(path) <= MaxSteps
        /\ \E n \in Names :
             \/ \E v \in conf[1][3] : AddV(n, v)
             \/ MergeTo(n)
        /\ ok' = IsOf(x'["a"], bag'["a"], conf[1][4]) \cup
                 IsOf(x'["b"], bag'["b"], IF Matches THEN conf[1][4] ELSE <<-1000000>>) \cup
                 Says("match", DistMergeOk(x'["a"].d, x'["b"].d) = Matches) \cup
                 Says("either order", ~Matches \/
                        DistMerge(x'["a"].d, x'["b"].d) = DistMerge(x'["b"].d, x'["a"].d) \/
                        bag'["a"] = NoBag \/ bag'["b"] = NoBag)
        /\ UNCHANGED conf
        /\ IF ok' = {} THEN TRUE ELSE PrintT(<<"BAD", ok', path'>>)
        /\ IF Show THEN PrintT(<<"PATH", ToJson(path')>>) ELSE TRUE

View == <<conf, x, ok>>
Good == ok' = {}
Spec == Init /\ [][Next]_<<x, bag, conf, path, ok>>
AllGood == [][Good]_<<x, bag, conf, path, ok>>
=============================================================================
