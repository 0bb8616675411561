----------------------------- MODULE ReportAgg -----------------------------
(* The report aggregator; results as in CheckAgg. fl are the operations     *)
(* that leave the cache, in order; RPack packs them into requests.          *)
(* cfg: svc, cid, n, flushms, kinds, ms.                                    *)
(* State: cache entries, oldest first: k, use (time of insertion), agg.     *)
EXTENDS Keys, Cache

RInit == <<>>
MaxOps  == 10        \* operations per request
MaxLogs == 100       \* log entries of an entry which still waits
RRes(st, ans, fl) == [st |-> st, ans |-> ans, fl |-> fl]

RAggs(gone) == [i \in DOMAIN gone |-> gone[i].agg]

RExpire(cfg, st, now) ==
  LET n == NumExpired(st, now, cfg.flushms * cfg.ms)
  IN [st |-> Newer(st, n), fl |-> RAggs(Oldest(st, n))]

\* One operation; acc = [st, fl].
RAdd(cfg, now, acc, op) ==
  LET x == RExpire(cfg, acc.st, now)
      k == ReportKey(op)
      i == At(x.st, k)
      fl == acc.fl \o x.fl
  IN IF i = 0
     THEN LET n == NumEvicted(x.st, cfg.n)
              new == [k |-> k, use |-> now, agg |-> NewAgg(op, cfg.kinds)]
          IN [st |-> Append(Newer(x.st, n), new), fl |-> fl \o RAggs(Oldest(x.st, n))]
     ELSE LET agg == AddToAgg(x.st[i].agg, op, cfg.kinds)
          IN IF Len(agg.logs) >= MaxLogs
             THEN [st |-> Without(x.st, i), fl |-> Append(fl, agg)]
             ELSE [st |-> [x.st EXCEPT ![i].agg = agg], fl |-> fl]

RReport(cfg, st, now, req) ==
  IF req.svc # cfg.svc THEN RRes(st, "invalid", <<>>)
  ELSE IF cfg.n <= 0 \/ \E i \in DOMAIN req.ops : req.ops[i].imp # "LOW"
       THEN RRes(st, "send", <<>>)
  ELSE LET x == FoldLeft(LAMBDA acc, op : RAdd(cfg, now, acc, op),
                         [st |-> st, fl |-> <<>>], req.ops)
       IN RRes(x.st, "ok", x.fl)

RFlush(cfg, st, now) ==
  IF cfg.n <= 0 THEN RRes(st, "ok", <<>>)
  ELSE LET x == RExpire(cfg, st, now) IN RRes(x.st, "ok", x.fl)

RFlushAll(cfg, st) == RRes(<<>>, "ok", RAggs(st))

RInterval(cfg) == IF cfg.n <= 0 THEN -1 ELSE cfg.flushms

\* The requests for a sequence of operations: in order, each as full as
\* allowed.
RPack(cfg, ops) ==
  LET n == (Len(ops) + MaxOps - 1) \div MaxOps
  IN [j \in 1..n |->
        [svc |-> cfg.svc, cid |-> cfg.cid, r |-> "",
         ops |-> SubSeq(ops, (j - 1) * MaxOps + 1,
                        IF j * MaxOps < Len(ops) THEN j * MaxOps ELSE Len(ops))]]
=============================================================================
