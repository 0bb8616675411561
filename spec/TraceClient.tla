---------------------------- MODULE TraceClient ----------------------------
(* Conformance of recorded runs of the client.                              *)
EXTENDS Client, Trace

VARIABLES tr, i, nbad, c

CfgOf(t) == [t.cfg EXCEPT !.gt = {t.cfg.gt[j] : j \in DOMAIN t.cfg.gt}]

----------------------------------------------------------------------------
Sends(ev, k) == SelectSeq(ev, LAMBDA x : x.e = "send" /\ x.k = k)
Dones(ev)    == SelectSeq(ev, LAMBDA x : x.e = "done")
Others(ev)   == SelectSeq(ev, LAMBDA x : x.e \notin {"send", "done"})

\* A request observed on the wire as an aggregate.
Norm(k, req) ==
  IF k = "report"
  THEN [svc |-> req.svc, cid |-> req.cid, r |-> req.r,
        ops |-> [j \in DOMAIN req.ops |-> WireAgg(req.ops[j])]]
  ELSE [svc |-> req.svc, cid |-> req.cid, r |-> req.r,
        op |-> IF k = "check" THEN WireAgg(req.op) ELSE WireQuotaAgg(req.op)]

\* Which part of an aggregate differs.
OpDiff(k, a, b) ==
  Diff("metrics." \o k, a.m, b.m) \cup
  (IF k = "quota"
   THEN Diff("mode.quota", a.mode, b.mode) \cup
        Diff("ident.quota", <<a.id, a.method, a.cons, a.l, a.r>>,
                            <<b.id, b.method, b.cons, b.l, b.r>>)
   ELSE Diff("time." \o k, <<a.s, a.e>>, <<b.s, b.e>>) \cup
        Diff("logs." \o k, a.logs, b.logs) \cup
        Diff("ident." \o k, <<a.id, a.name, a.cons, a.imp, a.l, a.r>>,
                            <<b.id, b.name, b.cons, b.imp, b.l, b.r>>))

FlushDiff(k, a, b) ==
  Diff("service." \o k, <<a.svc, a.cid, a.r>>, <<b.svc, b.cid, b.r>>) \cup
  (IF k # "report" THEN OpDiff(k, a.op, b.op)
   ELSE IF Len(a.ops) # Len(b.ops) THEN {"packing.report"}
   ELSE UNION {OpDiff(k, a.ops[j], b.ops[j]) : j \in DOMAIN a.ops})

SendDiff(k, exp, obs) ==
  Diff("via." \o k, exp.via, obs.via) \cup
  Diff("sendid." \o k, exp.id, obs.id) \cup
  (IF exp.fl THEN FlushDiff(k, exp.req, Norm(k, obs.req))
   ELSE Diff("request." \o k, exp.req, obs.req))

SendsDiff(k, exp, obs) ==
  IF Len(exp) > Len(obs)
  THEN {(IF Cardinality({j \in DOMAIN exp : exp[j].fl}) > 0 THEN "missing.flush."
         ELSE "missing.send.") \o k}
  ELSE IF Len(exp) < Len(obs) THEN {"extra.send." \o k}
  ELSE UNION {SendDiff(k, exp[j], obs[j]) : j \in DOMAIN exp}

\* At the end of the client's life the order within a kind is unspecified.
RECURSIVE AllOps(_)
AllOps(reqs) == IF reqs = <<>> THEN <<>> ELSE Head(reqs).req.ops \o AllOps(Tail(reqs))

DrainDiff(k, exp, obs) ==
  LET n == [j \in DOMAIN obs |-> [obs[j] EXCEPT !.req = Norm(k, @)]]
  IN IF Len(exp) # Len(obs)
     THEN {(IF Len(exp) > Len(obs) THEN "missing.drain." ELSE "extra.drain.") \o k}
     ELSE UNION {Diff("via." \o k, n[j].via, "default") : j \in DOMAIN n} \cup
          (IF k # "report"
           THEN Diff("drain." \o k, BagOf([j \in DOMAIN exp |-> exp[j].req]),
                                    BagOf([j \in DOMAIN n |-> n[j].req]))
           ELSE Diff("drain." \o k, BagOf(AllOps(exp)), BagOf(AllOps(n))) \cup
                UNION {Diff("packing.report", Len(n[j].req.ops) \in 1..MaxOps, TRUE)
                       : j \in DOMAIN n} \cup
                UNION {Diff("service.report", <<n[j].req.svc, n[j].req.cid, n[j].req.r>>,
                            <<exp[j].req.svc, exp[j].req.cid, exp[j].req.r>>)
                       : j \in DOMAIN n})

\* Who does not write the response may also clear it.
RespOk(exp, obs) == obs = exp \/ (exp = Untouched /\ obs = NoResp)

DonesDiff(exp, obs) ==
  IF [j \in DOMAIN exp |-> exp[j].call] # [j \in DOMAIN obs |-> obs[j].call]
  THEN {"done.calls"}
  ELSE Diff("done.status", [j \in DOMAIN exp |-> exp[j].st], [j \in DOMAIN obs |-> obs[j].st])
       \cup
       Diff("done.response", \A j \in DOMAIN exp : RespOk(exp[j].resp, obs[j].resp), TRUE)

StatDiff(exp, rec) ==
  IF ~rec.live THEN {}
  ELSE {f \o ".stat" : f \in {f \in DOMAIN exp : exp[f] # rec.stat[f]}}

Compare(d, rec) ==
  LET exp == d.ev
      obs == rec.ev
  IN UNION {IF rec.c = "destroy" THEN DrainDiff(k, Sends(exp, k), Sends(obs, k))
            ELSE SendsDiff(k, Sends(exp, k), Sends(obs, k)) : k \in Kinds} \cup
     DonesDiff(Dones(exp), Dones(obs)) \cup
     StatDiff(d.stat, rec)

Reply(d, rec) ==
  LET bad == Compare(d, rec)
  IN [st |-> [d EXCEPT !.ev = <<>>], bad |-> bad,
      exp |-> IF bad = {} THEN <<>> ELSE d.ev]

----------------------------------------------------------------------------
\* A timer was asked for at the start: its interval. If no cache is enabled
\* anything goes.
TimerOf(rec) == SelectSeq(rec.ev, LAMBDA x : x.e = "timer")
StartUp(cfg, rec) ==
  LET tm == TimerOf(rec)
      d  == [ClientInit(cfg, rec.t) EXCEPT !.timer = tm # <<>>]
      ok == IF Interval(cfg) < 0 THEN Len(tm) <= 1
            ELSE IF HasTimer(cfg) THEN Len(tm) = 1 /\ tm[1].ms = Interval(cfg)
            ELSE tm = <<>>
  IN [st |-> d, bad |-> (IF ok THEN {} ELSE {"timer"}) \cup
                        (IF Len(rec.ev) > Len(tm) THEN {"extra.start"} ELSE {}),
      exp |-> <<[e |-> "timer", ms |-> Interval(cfg)]>>]

IdleOk(d, k) == \A x \in DOMAIN d.out : x[1] # k

Step(cfg, d, rec) ==
  LET e == [d EXCEPT !.now = IF rec.c \in {"plan", "idle"} THEN @ ELSE rec.t]
  IN CASE rec.c = "new"  -> StartUp(cfg, rec)
       [] rec.c = "plan" -> [st |-> [d EXCEPT !.plan[rec.k] = rec.p], bad |-> {},
                             exp |-> <<>>]
       [] rec.c = "call" -> Reply(Call(cfg, e, rec.call), rec)
       [] rec.c = "fin"  ->
            IF <<rec.k, rec.id>> \in DOMAIN d.out
            THEN Reply(Finish(cfg, e, rec.k, rec.id, rec.st, rec.resp), rec)
            ELSE [st |-> d, bad |-> {"outstanding." \o rec.k}, exp |-> <<>>]
       [] rec.c = "idle" ->
            [st |-> d, bad |-> IF IdleOk(d, rec.k) THEN {} ELSE {"outstanding." \o rec.k},
             exp |-> <<>>]
       [] rec.c = "tick" -> Reply(Tick(cfg, e), rec)
       [] rec.c = "notimer" ->
            [st |-> d, bad |-> IF d.timer THEN {"timer"} ELSE {}, exp |-> <<>>]
       [] rec.c = "destroy" ->
            LET f == Destroy(cfg, e)
                r == Reply(f, rec)
            IN [r EXCEPT !.bad = @ \cup
                  (IF Len(Others(rec.ev)) # (IF d.timer THEN 1 ELSE 0)
                   THEN {"stop"} ELSE {})]

----------------------------------------------------------------------------
\* The specification does not depend on what was observed, so that a run can be
\* followed beyond a difference; a few are enough.
MaxReports == 5

Init == /\ tr \in DOMAIN Traces
        /\ i = 1
        /\ nbad = 0
        /\ c = ClientInit(CfgOf(Traces[tr]), 0)

Next ==
  LET t == Traces[tr]
  IN /\ i \in DOMAIN t.ev
     /\ LET r == Step(CfgOf(t), c, t.ev[i])
            n == nbad + (IF r.bad = {} THEN 0 ELSE 1)
        IN /\ IF r.bad = {} THEN TRUE ELSE Report(t, i, r)
           /\ IF i < Len(t.ev) /\ n < MaxReports THEN TRUE ELSE Finished(t)
           /\ i' = IF n < MaxReports THEN i + 1 ELSE 0
           /\ c' = r.st
           /\ nbad' = n
     /\ UNCHANGED tr
=============================================================================
