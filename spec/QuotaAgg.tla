------------------------------ MODULE QuotaAgg ------------------------------
(* The quota aggregator; results as in CheckAgg. Quota is always answered   *)
(* at once; fl are the requests sent to the server, in order.               *)
(* cfg: svc, cid, n, refreshms, expms (milliseconds), ms.                   *)
(* State: all (everything was flushed: nothing is kept any more) and c, the *)
(* cache entries, oldest first: k, use (time of insertion), lrt (time of    *)
(* the last request to the server), resp, inflight (a request is            *)
(* outstanding), agg (<<>> or <<tokens not yet requested>>), first (the     *)
(* request the entry was created for).                                      *)
EXTENDS Keys, Cache

QInit == [all |-> FALSE, c |-> <<>>]
QRes(st, ans, resp, fl) == [st |-> st, ans |-> ans, resp |-> resp, fl |-> fl]
QNoResp == [t |-> "", err |-> 0]

QRefreshTime(cfg) == cfg.refreshms * cfg.ms
QExpTime(cfg) == cfg.expms * cfg.ms

QPositive(x) == x.resp.err = 0

\* The request which charges what the entry has accumulated, or its first
\* request again.
QRequest(cfg, x) ==
  IF x.agg # <<>>
  THEN [svc |-> cfg.svc, cid |-> cfg.cid, r |-> "", op |-> AsSent(x.agg[1])]
  ELSE [svc |-> x.first.svc, cid |-> x.first.cid, r |-> x.first.r,
        op |-> WireQuotaAgg(x.first.op)]

\* One aged entry: it stays, and its tokens are requested, unless it is idle
\* for too long.
QAge(cfg, st, now, acc, x) ==
  IF st.all \/ now - x.lrt >= QExpTime(cfg) THEN acc
  ELSE LET due == ~x.inflight /\ x.agg # <<>>
           y == [x EXCEPT !.use = now,
                          !.inflight = @ \/ due,
                          !.lrt = IF due THEN now ELSE @,
                          !.agg = IF due THEN <<>> ELSE @]
       IN [keep |-> Append(acc.keep, y),
           fl   |-> IF due THEN Append(acc.fl, QRequest(cfg, x)) ELSE acc.fl]

QExpire(cfg, st, now) ==
  LET n == NumExpired(st.c, now, QRefreshTime(cfg))
      a == FoldLeft(LAMBDA acc, x : QAge(cfg, st, now, acc, x),
                    [keep |-> <<>>, fl |-> <<>>], Oldest(st.c, n))
  IN [st |-> [st EXCEPT !.c = Newer(st.c, n) \o a.keep], fl |-> a.fl]

\* Evicted for lack of room: accumulated tokens are requested, nobody waits
\* for the answer.
QEvicted(cfg, st, gone) ==
  IF st.all THEN <<>>
  ELSE FoldLeft(LAMBDA acc, x : IF x.agg = <<>> THEN acc
                                ELSE Append(acc, QRequest(cfg, x)),
                <<>>, gone)

QQuota(cfg, st, now, req) ==
  IF req.svc # cfg.svc \/ ~req.hasop THEN QRes(st, "invalid", QNoResp, <<>>)
  ELSE IF cfg.n <= 0 THEN QRes(st, "send", QNoResp, <<>>)
  ELSE
    LET x == QExpire(cfg, st, now)
        k == QuotaKey(req.op)
        i == At(x.st.c, k)
    IN IF i = 0
       THEN LET n == NumEvicted(x.st.c, cfg.n)
                new == [k |-> k, use |-> now, lrt |-> now, resp |-> QNoResp,
                        inflight |-> TRUE, agg |-> <<>>, first |-> req]
            IN QRes([x.st EXCEPT !.c = Append(Newer(@, n), new)], "ok", QNoResp,
                    x.fl \o QEvicted(cfg, x.st, Oldest(x.st.c, n))
                         \o <<[svc |-> req.svc, cid |-> req.cid, r |-> req.r,
                               op |-> WireQuotaAgg(req.op)]>>)
       ELSE
         LET old == x.st.c[i]
             due == ~old.inflight /\ now - old.lrt >= QRefreshTime(cfg)
             base == QRequest(cfg, old)
             send == IF QPositive(old) THEN base
                     ELSE [base EXCEPT !.op.mode = "NORMAL"]
             mid == IF due THEN [old EXCEPT !.inflight = TRUE, !.lrt = now,
                                            !.agg = <<>>]
                    ELSE old
             new == IF ~QPositive(old) THEN mid
                    ELSE [mid EXCEPT !.agg =
                            IF @ = <<>> THEN <<NewQuotaAgg(req.op)>>
                            ELSE <<AddToQuotaAgg(@[1], req.op)>>]
         IN QRes([x.st EXCEPT !.c[i] = new], "ok", old.resp,
                 IF due THEN Append(x.fl, send) ELSE x.fl)

QCacheResponse(cfg, st, now, key, resp) ==
  IF cfg.n <= 0 THEN QRes(st, "ok", QNoResp, <<>>)
  ELSE
    LET x == QExpire(cfg, st, now)
        i == At(x.st.c, key)
    IN IF i = 0 THEN QRes(x.st, "ok", QNoResp, x.fl)
       ELSE QRes([x.st EXCEPT !.c[i] =
                    [@ EXCEPT !.inflight = FALSE, !.resp = resp,
                              !.agg = IF resp.err > 0 THEN <<>> ELSE @]],
                 "ok", QNoResp, x.fl)

QFlush(cfg, st, now) ==
  IF cfg.n <= 0 THEN QRes(st, "ok", QNoResp, <<>>)
  ELSE LET x == QExpire(cfg, st, now) IN QRes(x.st, "ok", QNoResp, x.fl)

QFlushAll(cfg, st) == QRes([all |-> TRUE, c |-> <<>>], "ok", QNoResp, <<>>)

QInterval(cfg) == IF cfg.n <= 0 THEN -1 ELSE cfg.refreshms
=============================================================================
