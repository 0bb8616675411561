------------------------------ MODULE Client ------------------------------
(* The client: the three aggregators, the transports, the callers, the      *)
(* periodic timer, the statistics and the end of its life.                  *)
(*                                                                          *)
(* A client step is one command of its user (a call, the completion of an   *)
(* outstanding request, a tick of the timer, the destruction) with all that *)
(* happens inside: transports may complete in place, after some time, and   *)
(* done callbacks may call the client again. The steps inside are modelled  *)
(* one by one, in the order in which the implementation takes them, by the  *)
(* mutually recursive operators below; c.ev collects what can be observed:  *)
(*   [e |-> "send", k, via, id, req, fl]  a request given to a transport,   *)
(*        fl: by a flush, req is then in the form of an aggregate           *)
(*   [e |-> "done", call, st, resp]   the completion of a call              *)
(*   [e |-> "stop"]                   the timer was stopped                 *)
(*                                                                          *)
(* cfg: chk, quo, rep (configurations of the aggregators), gt (the kinds    *)
(* that have a default transport), timer (a timer factory is given).        *)
(* State c:                                                                 *)
(*   now; chk, quo, rep; alive; timer                                       *)
(*   plan: per kind, what the transport will do with the next requests:     *)
(*     [how |-> "store"] keep it outstanding, or                            *)
(*     [how |-> "inplace", d, st, resp] complete after d microseconds;      *)
(*     with rep = TRUE the same for all later requests                      *)
(*   out: the outstanding requests: <<kind, id>> -> what completion does    *)
(*   nid: per kind, the number of requests sent so far                      *)
(*   stat: the statistics                                                   *)
EXTENDS CheckAgg, QuotaAgg, ReportAgg

Kinds == {"check", "quota", "report"}
Store == [how |-> "store", d |-> 0, st |-> "OK", resp |-> NoResp, rep |-> FALSE]

ZeroStat == [tc |-> 0, fc |-> 0, ic |-> 0, tq |-> 0, fq |-> 0, iq |-> 0,
             tr |-> 0, fr |-> 0, ir |-> 0, ops |-> 0]

\* The interval of the timer: the shortest one of the enabled caches.
Interval(cfg) ==
  LET all == {CInterval(cfg.chk), QInterval(cfg.quo), RInterval(cfg.rep)}
      pos == {x \in all : x >= 0}
  IN IF pos = {} THEN -1 ELSE CHOOSE x \in pos : \A y \in pos : x <= y

\* A timer is created unless the shortest interval is zero. (With all caches
\* disabled the implementation creates one with the largest interval.)
HasTimer(cfg) == cfg.timer /\ Interval(cfg) # 0

ClientInit(cfg, now) ==
  [now |-> now, chk |-> CInit, quo |-> QInit, rep |-> RInit,
   alive |-> TRUE, timer |-> HasTimer(cfg),
   plan |-> [k \in Kinds |-> <<>>],
   out |-> EmptyMap, nid |-> [k \in Kinds |-> 0], stat |-> ZeroStat, ev |-> <<>>]

Emit(c, x) == [c EXCEPT !.ev = Append(@, x)]

DoneEv(call, st, resp) == [e |-> "done", call |-> call, st |-> st, resp |-> resp]

RECURSIVE Send(_, _, _, _, _, _), Complete(_, _, _, _, _), FlushOut(_, _, _, _)
RECURSIVE Done(_, _, _, _, _), Call(_, _, _)

(* A request handed to a transport. what is what its completion will do:    *)
(*   [do |-> "check", req, call] cache the answer of call, and complete it  *)
(*   [do |-> "report", call], [do |-> "quota", req, call]                   *)
(*   [do |-> "discard"]   a flushed check or report: nothing                *)
(*   [do |-> "refresh", key]   a flushed quota request: cache the answer    *)
Send(cfg, c, kind, via, req, what) ==
  LET id == c.nid[kind] + 1
      c1 == [Emit(c, [e |-> "send", k |-> kind, via |-> via, id |-> id, req |-> req,
                        fl |-> what.do \in {"discard", "refresh"}])
               EXCEPT !.nid[kind] = id]
      p  == IF c.plan[kind] = <<>> THEN Store ELSE Head(c.plan[kind])
      c2 == IF c.plan[kind] = <<>> \/ p.rep THEN c1
            ELSE [c1 EXCEPT !.plan[kind] = Tail(@)]
  IN IF p.how = "store" THEN [c2 EXCEPT !.out = Put(@, <<kind, id>>, what)]
     ELSE Complete(cfg, [c2 EXCEPT !.now = @ + p.d], what, p.st, p.resp)

\* The transport has completed with status st and answer resp.
Complete(cfg, c, what, st, resp) ==
  CASE what.do = "discard" -> c
    [] what.do = "report" -> Done(cfg, c, what.call, st, resp)
    [] what.do = "check" ->
         IF st # "OK" THEN Done(cfg, c, what.call, st, resp)
         ELSE LET x == CCacheResponse(cfg.chk, c.chk, c.now, what.req, resp)
                  c1 == FlushOut(cfg, [c EXCEPT !.chk = x.st], "check", x.fl)
              IN Done(cfg, c1, what.call, st, resp)
    [] what.do = "quota" ->
         LET x == QCacheResponse(cfg.quo, c.quo, c.now, QuotaKey(what.req.op),
                                 IF st = "OK" THEN resp ELSE QNoResp)
             c1 == FlushOut(cfg, [c EXCEPT !.quo = x.st], "quota", x.fl)
         IN Done(cfg, c1, what.call, st, resp)
    [] what.do = "refresh" ->
         LET x == QCacheResponse(cfg.quo, c.quo, c.now, what.key,
                                 IF st = "OK" THEN resp ELSE QNoResp)
         IN FlushOut(cfg, [c EXCEPT !.quo = x.st], "quota", x.fl)

\* Items that left a cache are sent by the default transport, one by one, as
\* long as the client lives.
AggQuotaKey(op) == <<op.method, op.cons, DOMAIN op.m>>

FlushOut(cfg, c, kind, items) ==
  IF items = <<>> \/ ~c.alive THEN c
  ELSE
    LET it == Head(items)
        c1 == IF kind \notin cfg.gt
              THEN IF kind = "quota"        \* fail open
                   THEN Complete(cfg, c, [do |-> "refresh", key |-> AggQuotaKey(it.op)],
                                 "INVALID_ARGUMENT", QNoResp)
                   ELSE c
              ELSE
                LET what == IF kind = "quota"
                            THEN [do |-> "refresh", key |-> AggQuotaKey(it.op)]
                            ELSE [do |-> "discard"]
                    s == Send(cfg, c, kind, "default", it, what)
                IN [s EXCEPT !.stat =
                      CASE kind = "check"  -> [@ EXCEPT !.fc = @ + 1]
                        [] kind = "quota"  -> [@ EXCEPT !.fq = @ + 1]
                        [] kind = "report" -> [@ EXCEPT !.fr = @ + 1,
                                                        !.ops = @ + Len(it.ops)]]
    IN FlushOut(cfg, c1, kind, Tail(items))

FlushReports(cfg, c, fl) == FlushOut(cfg, c, "report", RPack(cfg.rep, fl))

\* The caller is told, and may call again from its callback.
Done(cfg, c, call, st, resp) ==
  LET c1 == Emit(c, DoneEv(call.n, st, resp))
  IN IF call.then = <<>> \/ ~c.alive THEN c1 ELSE Call(cfg, c1, call.then[1])

(* A call: n (its number), k (kind), req, own (it brings its own transport),*)
(* then (<<>>, or <<the call its done callback makes>>).                    *)
Via(call) == IF call.own THEN "own" ELSE "default"
HasTransport(cfg, call) == call.own \/ call.k \in cfg.gt

CallCheck(cfg, c, call) ==
  LET x == CCheck(cfg.chk, c.chk, c.now, call.req)
      c1 == FlushOut(cfg, [c EXCEPT !.chk = x.st], "check", x.fl)
  IN CASE x.ans = "invalid" -> Done(cfg, c1, call, "INVALID_ARGUMENT", Untouched)
       [] x.ans = "ok"      -> Done(cfg, c1, call, "OK", x.resp)
       [] x.ans = "send"    ->
            LET s == Send(cfg, c1, "check", Via(call), call.req,
                          [do |-> "check", req |-> call.req, call |-> call])
            IN [s EXCEPT !.stat.ic = @ + 1]

CallQuota(cfg, c, call) ==
  LET x == QQuota(cfg.quo, c.quo, c.now, call.req)
      c1 == FlushOut(cfg, [c EXCEPT !.quo = x.st], "quota", x.fl)
  IN CASE x.ans = "invalid" -> Done(cfg, c1, call, "INVALID_ARGUMENT", Untouched)
       [] x.ans = "ok"      -> Done(cfg, c1, call, "OK", x.resp)
       [] x.ans = "send"    ->
            LET s == Send(cfg, c1, "quota", Via(call), call.req,
                          [do |-> "quota", req |-> call.req, call |-> call])
            IN [s EXCEPT !.stat.iq = @ + 1]

CallReport(cfg, c, call) ==
  LET x == RReport(cfg.rep, c.rep, c.now, call.req)
      c1 == FlushReports(cfg, [c EXCEPT !.rep = x.st], x.fl)
  IN CASE x.ans = "invalid" -> Done(cfg, c1, call, "INVALID_ARGUMENT", Untouched)
       [] x.ans = "ok"      -> Done(cfg, c1, call, "OK", Untouched)
       [] x.ans = "send"    ->
            LET s == Send(cfg, c1, "report", Via(call), call.req,
                          [do |-> "report", call |-> call])
            IN [s EXCEPT !.stat.ir = @ + 1,
                         !.stat.ops = @ + Len(call.req.ops)]

Received(c, k) ==
  [c EXCEPT !.stat = CASE k = "check"  -> [@ EXCEPT !.tc = @ + 1]
                       [] k = "quota"  -> [@ EXCEPT !.tq = @ + 1]
                       [] k = "report" -> [@ EXCEPT !.tr = @ + 1]]

Call(cfg, c, call) ==
  LET c0 == Received(c, call.k)
  IN CASE ~HasTransport(cfg, call) -> Done(cfg, c0, call, "INVALID_ARGUMENT", Untouched)
       [] OTHER -> CASE call.k = "check"  -> CallCheck(cfg, c0, call)
                     [] call.k = "quota"  -> CallQuota(cfg, c0, call)
                     [] call.k = "report" -> CallReport(cfg, c0, call)

\* An outstanding request completes.
Finish(cfg, c, kind, id, st, resp) ==
  LET x == <<kind, id>>
  IN Complete(cfg, [c EXCEPT !.out = [i \in DOMAIN @ \ {x} |-> @[i]]],
              c.out[x], st, resp)

\* The timer fires (possibly after the client is gone).
Tick(cfg, c) ==
  LET x  == CFlush(cfg.chk, c.chk, c.now)
      c1 == FlushOut(cfg, [c EXCEPT !.chk = x.st], "check", x.fl)
      y  == QFlush(cfg.quo, c1.quo, c1.now)
      c2 == FlushOut(cfg, [c1 EXCEPT !.quo = y.st], "quota", y.fl)
      z  == RFlush(cfg.rep, c2.rep, c2.now)
  IN FlushReports(cfg, [c2 EXCEPT !.rep = z.st], z.fl)

\* The client is destroyed: what is cached is sent, then the timer stopped.
Destroy(cfg, c) ==
  LET x  == CFlushAll(cfg.chk, c.chk)
      c1 == FlushOut(cfg, [c EXCEPT !.chk = x.st], "check", x.fl)
      y  == QFlushAll(cfg.quo, c1.quo)
      c2 == FlushOut(cfg, [c1 EXCEPT !.quo = y.st], "quota", y.fl)
      z  == RFlushAll(cfg.rep, c2.rep)
      c3 == FlushReports(cfg, [c2 EXCEPT !.rep = z.st], z.fl)
      c4 == IF c3.timer THEN Emit(c3, [e |-> "stop"]) ELSE c3
  IN [c4 EXCEPT !.alive = FALSE, !.timer = FALSE]
=============================================================================
