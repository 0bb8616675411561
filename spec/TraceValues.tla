---------------------------- MODULE TraceValues ----------------------------
(* Conformance of recorded computations on money and distributions.         *)
EXTENDS Distribution, Trace
M == INSTANCE Money

VARIABLES tr, i, c        \* c: the distributions by name

Res(st, bad, exp) == [st |-> st, bad |-> bad, exp |-> IF bad = {} THEN <<>> ELSE exp]

MoneyStep(s, e) ==
  IF e.c = "check"
  THEN LET ok == M!Valid(e.a)
       IN Res(s, Diff("validate", IF ok THEN "OK" ELSE "INVALID_ARGUMENT", e.st) \cup
                 Diff("sign", M!Sign(e.a), e.sign), <<ok, M!Sign(e.a)>>)
  ELSE LET x == M!Add(e.a, e.b)
       IN Res(s, (IF e.c = "sat" THEN {} ELSE Diff("status", x.st, e.st)) \cup
                 Diff("sum", x.sum, e.sum) \cup
                 Diff("sum.valid", TRUE, x.st = "INVALID_ARGUMENT" \/ M!Valid(e.sum)), x)

DistOf(s, n) == IF n \in DOMAIN s THEN s[n] ELSE NoDist

DistStep(s, e) ==
  LET v == DistOf(s, e.n)
  IN CASE e.c = "init" ->
            IF ~OptionsOk(e.kind, e.p)
            THEN Res(Put(s, e.n, v),
                     Diff("init.status", "INVALID_ARGUMENT", e.st) \cup
                     Diff("init.changed", v.d, e.d), v.d)
            ELSE LET n == NumBuckets(e.kind, e.p)
                     d == [v.d EXCEPT ![6] = [j \in 1..n |-> WZero], ![7] = e.d[7]]
                 IN Res(Put(s, e.n, [d |-> d, kind |-> e.kind, p |-> e.p]),
                        Diff("init.status", "OK", e.st) \cup
                        Diff("init.options", <<e.kind, e.p>>, e.o) \cup
                        Diff("init.buckets", d, e.d), d)
       [] e.c = "load" ->
            Res(Put(s, e.n, [d |-> e.d, kind |-> e.o[1], p |-> e.o[2]]), {}, <<>>)
       [] e.c = "add" ->
            IF v.kind = "none"
            THEN Res(s, Diff("add.status", "INVALID_ARGUMENT", e.st) \cup
                        Diff("add.changed", v.d, e.d), v.d)
            ELSE LET w == AddSample(v, e.x)
                 IN Res(Put(s, e.n, w),
                        Diff("add.status", "OK", e.st) \cup
                        Diff("add.buckets", w.d[6], e.d[6]) \cup
                        Diff("add.statistics", SubSeq(w.d, 1, 5), SubSeq(e.d, 1, 5)) \cup
                        Diff("add.options", w.d[7], e.d[7]), w.d)
       [] e.c \in {"special", "near"} ->
            IF v.kind = "none"
            THEN Res(s, Diff("add.status", "INVALID_ARGUMENT", e.st), v.d)
            ELSE Res(s, Diff("add.status", "OK", e.st) \cup
                        Diff("add.count", WAdd(v.d[1], WOf(1)), e.cnt) \cup
                        Diff("add.buckets",
                             Count1(v.d[6], IF e.c = "near" THEN NearBucket(e.x, e.i)
                                            ELSE SpecialBucket(v, e.x)), e.b),
                     v.d)
       [] e.c = "merge" ->
            LET f == DistOf(s, e.f)
                ok == DistMergeOk(f.d, v.d)
                w == [v EXCEPT !.d = DistMerge(f.d, @)]
            IN Res(Put(s, e.n, w),
                   Diff("merge.status", IF ok THEN "OK" ELSE "INVALID_ARGUMENT", e.st) \cup
                   Diff("merge.result", w.d, e.d) \cup
                   Diff("merge.source", f.d, e.fd), w.d)

Init == tr \in DOMAIN Traces /\ i = 1 /\ c = EmptyMap

Next ==
  LET t == Traces[tr]
  IN /\ i \in DOMAIN t.ev
     /\ LET r == IF t.comp = "money" THEN MoneyStep(c, t.ev[i]) ELSE DistStep(c, t.ev[i])
        IN IF r.bad = {}
           THEN /\ IF i < Len(t.ev) THEN TRUE ELSE Finished(t)
                /\ i' = i + 1
                /\ c' = r.st
           ELSE /\ Report(t, i, r)
                /\ Finished(t)
                /\ i' = 0
                /\ c' = r.st
     /\ UNCHANGED tr
=============================================================================
