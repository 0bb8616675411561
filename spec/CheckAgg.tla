------------------------------ MODULE CheckAgg ------------------------------
(* The check aggregator. Every operation is one critical section of the     *)
(* implementation, at one instant now, and yields a record                  *)
(*   st  : the next state                                                   *)
(*   ans : "invalid" | "send" (the caller must ask the server) | "ok"       *)
(*   resp: the answer when ans = "ok"                                       *)
(*   fl  : the check requests to be flushed, in order                       *)
(*                                                                          *)
(* cfg: svc, cid (service name, config id), n (cache size), flushms, expms  *)
(* (milliseconds), kinds (metric kinds), ms (units of time per millisecond).*)
(* State: the sequence of cache entries, least recently used first:         *)
(*   k key, use (time of last use), lct (when the server was last asked or  *)
(*   answered), resp (the answer: [t text, err number of errors]),          *)
(*   agg (<<>> or <<aggregated operation>>: usage not yet reported).        *)
EXTENDS Keys, Cache

CInit == <<>>

CFlushReq(cfg, agg) == [svc |-> cfg.svc, cid |-> cfg.cid, r |-> "", op |-> agg]

\* Usage of the entries being discarded.
CFlushed(cfg, gone) ==
  FoldLeft(LAMBDA acc, x : IF x.agg = <<>> THEN acc
                           ELSE Append(acc, CFlushReq(cfg, x.agg[1])),
           <<>>, gone)

\* The expiration is longer than the flush interval.
CExpMs(cfg) == IF cfg.expms > cfg.flushms THEN cfg.expms ELSE cfg.flushms + 1
CIdle(cfg) == CExpMs(cfg) * cfg.ms
CFlushTime(cfg) == cfg.flushms * cfg.ms
CExpire(cfg, st, now) ==
  LET n == NumExpired(st, now, CIdle(cfg))
  IN [st |-> Newer(st, n), fl |-> CFlushed(cfg, Oldest(st, n))]

CRes(st, ans, resp, fl) == [st |-> st, ans |-> ans, resp |-> resp, fl |-> fl]
NoResp == [t |-> "", err |-> 0]

\* The response of a call that nobody has written to, as the caller handed it in.
Untouched == [t |-> "untouched", err |-> 0]

\* The request for the server, or the answer to a check.
CCheck(cfg, st, now, req) ==
  IF req.svc # cfg.svc \/ ~req.hasop THEN CRes(st, "invalid", NoResp, <<>>)
  ELSE IF req.op.imp # "LOW" \/ cfg.n <= 0 THEN CRes(st, "send", NoResp, <<>>)
  ELSE
    LET x == CExpire(cfg, st, now)
        i == At(x.st, CheckKey(req.op))
    IN IF i = 0 THEN CRes(x.st, "send", NoResp, x.fl)
       ELSE
         LET old == x.st[i]
             due == now - old.lct >= CFlushTime(cfg)
             pass == old.resp.err = 0
             agg == IF ~pass THEN old.agg
                    ELSE IF old.agg = <<>> THEN <<NewAgg(req.op, cfg.kinds)>>
                    ELSE <<AddToAgg(old.agg[1], req.op, cfg.kinds)>>
             new == [old EXCEPT !.agg = agg, !.use = now,
                                !.lct = IF due THEN now ELSE @]
             st1 == Append(Without(x.st, i), new)
         IN IF due THEN CRes(st1, "send", NoResp, x.fl)
            ELSE CRes(st1, "ok", old.resp, x.fl)

\* The server answered req with resp.
CCacheResponse(cfg, st, now, req, resp) ==
  IF cfg.n <= 0 THEN CRes(st, "ok", NoResp, <<>>)
  ELSE
    LET x == CExpire(cfg, st, now)
        k == CheckKey(req.op)
        i == At(x.st, k)
    IN IF i # 0
       THEN CRes(Append(Without(x.st, i),
                        [x.st[i] EXCEPT !.use = now, !.lct = now, !.resp = resp]),
                 "ok", NoResp, x.fl)
       ELSE
         LET n == NumEvicted(x.st, cfg.n)
             new == [k |-> k, use |-> now, lct |-> now, resp |-> resp, agg |-> <<>>]
         IN CRes(Append(Newer(x.st, n), new), "ok", NoResp,
                 x.fl \o CFlushed(cfg, Oldest(x.st, n)))

\* Ageing pass; called by the timer.
CFlush(cfg, st, now) ==
  IF cfg.n <= 0 THEN CRes(st, "ok", NoResp, <<>>)
  ELSE LET x == CExpire(cfg, st, now) IN CRes(x.st, "ok", NoResp, x.fl)

\* Everything leaves the cache. The order of fl is unspecified.
CFlushAll(cfg, st) == CRes(<<>>, "ok", NoResp, CFlushed(cfg, st))

\* How often Flush should be called, in ms; -1: never.
CInterval(cfg) == IF cfg.n <= 0 THEN -1 ELSE CExpMs(cfg)
=============================================================================
