---------------------------- MODULE ConcClient ----------------------------
(* The client used by several threads at once. Every operation is broken    *)
(* into its steps: the critical sections of the aggregators, which are      *)
(* atomic, and what can be observed (requests given to transports and       *)
(* completions), in between of which other threads may take theirs. A       *)
(* thread is a stack of frames, the topmost of which is its next step:      *)
(*   call, cs     a call begins; its critical section                       *)
(*   flush        the requests still to be sent after a critical section    *)
(*   send         a request for a transport                                 *)
(*   complete     a transport completes: cache is its critical section      *)
(*   done, await  a call completes; a blocking one waits for it             *)
(*   count        a statistic                                               *)
(*   tick, all, drain, stop, disc, dead   of the timer and the destructor   *)
(*   end          of an operation                                           *)
(* State s: c, the client as in Client (events are not collected); st, the  *)
(* stacks; conn, the kinds whose flushes are still connected to transports; *)
(* box, the completions of blocking calls.                                  *)
EXTENDS Client

Stat(c, f, n) == [c EXCEPT !.stat[f] = @ + n]
CountFrame(f, n) == [f |-> "count", s |-> f, n |-> n]
FlushStats(k, req) ==
  CASE k = "check"  -> <<CountFrame("fc", 1)>>
    [] k = "quota"  -> <<CountFrame("fq", 1)>>
    [] k = "report" -> <<CountFrame("fr", 1), CountFrame("ops", Len(req.ops))>>

ConcInit(c, threads) == [c |-> c, st |-> [t \in threads |-> <<>>],
                         conn |-> Kinds, box |-> EmptyMap]

Top(s, t) == Head(s.st[t])
\* The topmost frame is replaced.
Become(s, t, c, frames) == [s EXCEPT !.c = c, !.st[t] = frames \o Tail(@)]

FlushFrame(k, items) == [f |-> "flush", k |-> k, items |-> items]
DoneFrame(call, st, resp) == [f |-> "done", call |-> call, st |-> st, resp |-> resp]

\* What follows a completion or an immediate answer.
Tell(call, st, resp) == [f |-> "tell", call |-> call, st |-> st, resp |-> resp]

----------------------------------------------------------------------------
(* Steps that neither can be observed nor depend on other threads.          *)
IsLocal(cfg, s, x) ==
  CASE x.f = "call"  -> TRUE
    [] x.f = "count" -> TRUE
    [] x.f = "tell"  -> TRUE
    [] x.f = "flush" -> x.items = <<>> \/ x.k \notin s.conn \/ x.k \notin cfg.gt
    [] x.f = "drain" -> x.items = <<>> \/ x.k \notin cfg.gt
    [] x.f = "complete" -> TRUE
    [] x.f = "dead"  -> TRUE
    [] OTHER -> FALSE

Local(cfg, s, t) ==
  LET x == Top(s, t)
      c == s.c
  IN CASE x.f = "call" ->
            LET c0 == Received(c, x.call.k)
            IN IF ~HasTransport(cfg, x.call)
               THEN Become(s, t, c0, <<Tell(x.call, "INVALID_ARGUMENT", Untouched)>> \o
                                     (IF x.call.sync THEN <<[f |-> "await", call |-> x.call]>>
                                      ELSE <<>>))
               ELSE Become(s, t, c0, <<[f |-> "cs", call |-> x.call]>> \o
                                     (IF x.call.sync THEN <<[f |-> "await", call |-> x.call]>>
                                      ELSE <<>>))
       [] x.f = "count" -> Become(s, t, Stat(c, x.s, x.n), <<>>)
       [] x.f = "tell" ->
            IF x.call.sync
            THEN [Become(s, t, c, <<>>) EXCEPT !.box = Put(@, x.call.n, <<x.st, x.resp>>)]
            ELSE Become(s, t, c, <<DoneFrame(x.call, x.st, x.resp)>>)
       [] x.f = "flush" ->
            IF x.items = <<>> \/ x.k \notin s.conn \/ x.k # "quota" THEN Become(s, t, c, <<>>)
            ELSE Become(s, t, c,      \* fail open
                        <<[f |-> "cache", k |-> "quota", resp |-> QNoResp,
                           key |-> AggQuotaKey(Head(x.items).op)],
                          FlushFrame(x.k, Tail(x.items))>>)
       [] x.f = "drain" -> Become(s, t, c, <<>>)
       [] x.f = "complete" ->
            LET w == x.what
                tell == IF w.do \in {"check", "report", "quota"}
                        THEN <<Tell(w.call, x.st, x.resp)>> ELSE <<>>
            IN (CASE w.do = "discard" -> Become(s, t, c, <<>>)
                 [] w.do = "report"  -> Become(s, t, c, tell)
                 [] w.do = "check"   ->
                      Become(s, t, c, IF x.st # "OK" THEN tell
                                      ELSE <<[f |-> "cache", k |-> "check", req |-> w.req,
                                              resp |-> x.resp]>> \o tell)
                 [] w.do = "quota"   ->
                      Become(s, t, c, <<[f |-> "cache", k |-> "quota",
                                         key |-> QuotaKey(w.req.op),
                                         resp |-> IF x.st = "OK" THEN x.resp ELSE QNoResp]>> \o tell)
                 [] w.do = "refresh" ->
                      Become(s, t, c, <<[f |-> "cache", k |-> "quota", key |-> w.key,
                                         resp |-> IF x.st = "OK" THEN x.resp ELSE QNoResp]>>))
       [] x.f = "dead" -> Become(s, t, [c EXCEPT !.alive = FALSE, !.timer = FALSE], <<>>)

RECURSIVE Settle(_, _, _)
Settle(cfg, s, t) ==
  IF s.st[t] # <<>> /\ IsLocal(cfg, s, Top(s, t)) THEN Settle(cfg, Local(cfg, s, t), t) ELSE s

\* After a change which may make steps of other threads local.
RECURSIVE SettleAll(_, _, _)
SettleAll(cfg, s, ts) ==
  IF ts = {} THEN s
  ELSE LET t == CHOOSE t \in ts : TRUE IN SettleAll(cfg, Settle(cfg, s, t), ts \ {t})

----------------------------------------------------------------------------
(* The critical sections.                                                   *)
\* Before a flush is disconnected, what others are flushing has been sent.
Flushing(s, u, k) == \E j \in DOMAIN s.st[u] :
  s.st[u][j].f = "flush" /\ s.st[u][j].k = k /\ s.st[u][j].items # <<>>
HasHidden(s, t) ==
  LET x == Top(s, t)
  IN \/ x.f \in {"cs", "cache", "tick", "all"}
     \/ x.f = "stop" /\ Head(Tail(s.st[t])).f = "disc"
     \/ x.f = "disc" /\ \A u \in DOMAIN s.st : u = t \/ \A k \in Kinds : ~Flushing(s, u, k)

Answer(k, call, x) ==
  CASE x.ans = "invalid" -> <<Tell(call, "INVALID_ARGUMENT", Untouched)>>
    [] x.ans = "ok"      -> <<Tell(call, "OK", IF k = "report" THEN Untouched ELSE x.resp)>>
    [] x.ans = "send"    ->
         <<[f |-> "send", k |-> k, via |-> Via(call), req |-> call.req,
            what |-> CASE k = "check"  -> [do |-> "check", req |-> call.req, call |-> call]
                       [] k = "quota"  -> [do |-> "quota", req |-> call.req, call |-> call]
                       [] k = "report" -> [do |-> "report", call |-> call]]>> \o
         (CASE k = "check"  -> <<CountFrame("ic", 1)>>
            [] k = "quota"  -> <<CountFrame("iq", 1)>>
            [] k = "report" -> <<CountFrame("ir", 1), CountFrame("ops", Len(call.req.ops))>>)

\* The order in which a tick or the end deals with the kinds is left open.
HiddenOne(cfg, s, t, x) ==
  LET c == s.c
      others == IF "ks" \in DOMAIN x /\ x.ks # {x.k}
                THEN <<[f |-> x.f, ks |-> x.ks \ {x.k}]>> ELSE <<>>
      n == CASE x.f = "cs" ->
                  (CASE x.call.k = "check" ->
                          LET r == CCheck(cfg.chk, c.chk, c.now, x.call.req)
                          IN Become(s, t, [c EXCEPT !.chk = r.st],
                                    <<FlushFrame("check", r.fl)>> \o Answer("check", x.call, r))
                     [] x.call.k = "quota" ->
                          LET r == QQuota(cfg.quo, c.quo, c.now, x.call.req)
                          IN Become(s, t, [c EXCEPT !.quo = r.st],
                                    <<FlushFrame("quota", r.fl)>> \o Answer("quota", x.call, r))
                     [] x.call.k = "report" ->
                          LET r == RReport(cfg.rep, c.rep, c.now, x.call.req)
                          IN Become(s, t, [c EXCEPT !.rep = r.st],
                                    <<FlushFrame("report", RPack(cfg.rep, r.fl))>> \o
                                    Answer("report", x.call, r)))
             [] x.f = "cache" ->
                  (CASE x.k = "check" ->
                          LET r == CCacheResponse(cfg.chk, c.chk, c.now, x.req, x.resp)
                          IN Become(s, t, [c EXCEPT !.chk = r.st], <<FlushFrame("check", r.fl)>>)
                     [] x.k = "quota" ->
                          LET r == QCacheResponse(cfg.quo, c.quo, c.now, x.key, x.resp)
                          IN Become(s, t, [c EXCEPT !.quo = r.st], <<FlushFrame("quota", r.fl)>>))
             [] x.f = "tick" ->
                  (CASE x.k = "check" ->
                          LET r == CFlush(cfg.chk, c.chk, c.now)
                          IN Become(s, t, [c EXCEPT !.chk = r.st], <<FlushFrame("check", r.fl)>> \o others)
                     [] x.k = "quota" ->
                          LET r == QFlush(cfg.quo, c.quo, c.now)
                          IN Become(s, t, [c EXCEPT !.quo = r.st], <<FlushFrame("quota", r.fl)>> \o others)
                     [] x.k = "report" ->
                          LET r == RFlush(cfg.rep, c.rep, c.now)
                          IN Become(s, t, [c EXCEPT !.rep = r.st],
                                    <<FlushFrame("report", RPack(cfg.rep, r.fl))>> \o others))
             [] x.f = "all" ->
                  (CASE x.k = "check" ->
                          LET r == CFlushAll(cfg.chk, c.chk)
                          IN Become(s, t, [c EXCEPT !.chk = r.st],
                                    <<[f |-> "drain", k |-> "check", items |-> r.fl]>> \o others)
                     [] x.k = "quota" ->
                          LET r == QFlushAll(cfg.quo, c.quo)
                          IN Become(s, t, [c EXCEPT !.quo = r.st], others)
                     [] x.k = "report" ->
                          LET r == RFlushAll(cfg.rep, c.rep)
                          IN Become(s, t, [c EXCEPT !.rep = r.st],
                                    <<[f |-> "drain", k |-> "report", items |-> r.fl]>> \o others))
  IN SettleAll(cfg, n, DOMAIN n.st)

\* Kinds of which there is nothing to do, now or later: during a tick nothing
\* has expired, at the end nothing is cached. They come first.
Quiet(cfg, s, x) ==
  LET c == s.c
  IN IF x.f = "tick"
     THEN {k \in x.ks :
             CASE k = "check"  -> LET r == CFlush(cfg.chk, c.chk, c.now) IN r.st = c.chk /\ r.fl = <<>>
               [] k = "quota"  -> LET r == QFlush(cfg.quo, c.quo, c.now) IN r.st = c.quo /\ r.fl = <<>>
               [] k = "report" -> LET r == RFlush(cfg.rep, c.rep, c.now) IN r.st = c.rep /\ r.fl = <<>>}
     ELSE {k \in x.ks :
             CASE k = "check"  -> \A j \in DOMAIN c.chk : c.chk[j].agg = <<>>
               [] k = "quota"  -> cfg.quo.n <= 0
               [] k = "report" -> c.rep = <<>>}
Without0(x, ks) == IF x.ks = ks THEN <<>> ELSE <<[x EXCEPT !.ks = @ \ ks]>>

\* The states after a critical section of thread t. The end is disconnected
\* at one instant: by then nobody else has anything to send.
Hidden(cfg, s, t) ==
  LET x == Top(s, t)
  IN CASE x.f = "stop" -> {[s EXCEPT !.st[t] = <<Head(Tail(@)), x>> \o Tail(Tail(@))]}
       [] x.f \in {"tick", "all"} ->
            LET q == Quiet(cfg, s, x)
            IN IF q # {} THEN {SettleAll(cfg, Become(s, t, s.c, Without0(x, q)), DOMAIN s.st)}
               ELSE {HiddenOne(cfg, s, t, [f |-> x.f, k |-> k, ks |-> x.ks]) : k \in x.ks}
       [] x.f = "disc" -> {SettleAll(cfg, [Become(s, t, s.c, <<>>) EXCEPT !.conn = {}], DOMAIN s.st)}
       [] OTHER -> {HiddenOne(cfg, s, t, x)}

----------------------------------------------------------------------------
(* Beginning and observable steps.                                          *)
Begin(cfg, s, t, frames) ==
  Settle(cfg, [s EXCEPT !.st[t] = frames \o <<[f |-> "end"]>>], t)

TickFrames == <<[f |-> "tick", ks |-> Kinds]>>
DestroyFrames(c) ==
  <<[f |-> "all", ks |-> Kinds]>> \o (IF c.timer THEN <<[f |-> "stop"]>> ELSE <<>>) \o
  <<[f |-> "disc"], [f |-> "dead"]>>
\* The timer may be stopped at any time while the client is destroyed.
HasStop(s, t) == \E j \in DOMAIN s.st[t] : s.st[t][j].f = "stop"
Stopped(s, t) == [s EXCEPT !.st[t] = SelectSeq(@, LAMBDA x : x.f # "stop")]

\* A request is given to a transport: what happens then.
Given(cfg, s, t, k, what, rest) ==
  LET id == s.c.nid[k] + 1
      c1 == [s.c EXCEPT !.nid[k] = id]
      p  == IF c1.plan[k] = <<>> THEN Store ELSE Head(c1.plan[k])
      c2 == IF c1.plan[k] = <<>> \/ p.rep THEN c1 ELSE [c1 EXCEPT !.plan[k] = Tail(@)]
  IN IF p.how = "store"
     THEN Become(s, t, [c2 EXCEPT !.out = Put(@, <<k, id>>, what)], rest)
     ELSE Become(s, t, c2, <<[f |-> "complete", what |-> what, st |-> p.st, resp |-> p.resp]>>
                           \o rest)

\* A thread asks the oldest outstanding requests, or one of them, to complete.
Fin(cfg, s, t, k, id, st, resp) ==
  Begin(cfg, [s EXCEPT !.c.out = [i \in DOMAIN @ \ {<<k, id>>} |-> @[i]]], t,
        <<[f |-> "complete", what |-> s.c.out[<<k, id>>], st |-> st, resp |-> resp]>>)

Then(call) == IF call.then = <<>> THEN <<>> ELSE <<[f |-> "call", call |-> call.then[1]]>>
=============================================================================
