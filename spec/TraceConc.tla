----------------------------- MODULE TraceConc -----------------------------
(* Conformance of recorded runs of the client used by several threads. A    *)
(* run is recorded in the order in which things really happened (threads    *)
(* run one at a time), but critical sections are not recorded: the search   *)
(* for an order of them that explains what was observed is TLC's. A run     *)
(* conforms if there is one, and then ends with a DONE message.             *)
(* Records of sequential commands are as in TraceClient. Of threads:        *)
(*   [c |-> "par", threads]   from here on, threads run                     *)
(*   [c |-> "b", th, op, ...] an operation begins                           *)
(*   [c |-> "x", th, ev]      something is observed in a thread             *)
(*   [c |-> "e", th]          the operation has returned                    *)
(*   [c |-> "seq"]            all threads have ended                        *)
EXTENDS TraceClient, ConcClient

VARIABLES s

Threads == 0..4
CInitAll == Init /\ s = <<>>

Par == s # <<>>

\* What a thread does next that can be observed, and what was.
Matches(cfg, x, rec) ==
  LET e == rec.ev
  IN CASE x.f = "send"  -> /\ e.e = "send" /\ e.k = x.k
                           /\ SendDiff(x.k, [via |-> x.via, id |-> s.c.nid[x.k] + 1, fl |-> FALSE,
                                             req |-> x.req], e) = {}
       [] x.f = "flush" -> /\ e.e = "send" /\ e.k = x.k
                           /\ SendDiff(x.k, [via |-> "default", id |-> s.c.nid[x.k] + 1,
                                             fl |-> TRUE, req |-> Head(x.items)], e) = {}
       [] x.f = "drain" -> /\ e.e = "send" /\ e.k = x.k /\ e.via = "default"
                           /\ e.id = s.c.nid[x.k] + 1
       [] x.f = "done"  -> /\ e.e = "done" /\ e.call = x.call.n /\ e.st = x.st
                           /\ RespOk(x.resp, e.resp)
       [] x.f = "await" -> /\ x.call.n \in DOMAIN s.box
                           /\ e.e = "done" /\ e.call = x.call.n
                           /\ e.st = s.box[x.call.n][1] /\ RespOk(s.box[x.call.n][2], e.resp)
       [] OTHER -> FALSE

RemoveAt1(seq, j) == SubSeq(seq, 1, j - 1) \o SubSeq(seq, j + 1, Len(seq))

\* The states after an observed step.
Observed(cfg, rec) ==
  LET t == rec.th
      x == Top(s, t)
      e == rec.ev
      go(n) == Settle(cfg, n, t)
  IN IF s.st[t] = <<>> THEN {}
     ELSE IF e.e = "stop" THEN IF HasStop(s, t) THEN {go(Stopped(s, t))} ELSE {}
     ELSE IF ~Matches(cfg, x, rec) THEN {}
     ELSE CASE x.f = "send"  -> {go(Given(cfg, s, t, x.k, x.what, <<>>))}
            [] x.f = "flush" ->
                 LET it == Head(x.items)
                     what == IF x.k = "quota" THEN [do |-> "refresh", key |-> AggQuotaKey(it.op)]
                             ELSE [do |-> "discard"]
                 IN {go(Given(cfg, s, t, x.k, what,
                              FlushStats(x.k, it) \o <<FlushFrame(x.k, Tail(x.items))>>))}
            [] x.f = "drain" ->
                 LET n == Norm(x.k, e.req)
                     rest(items) == go(Given(cfg, s, t, x.k, [do |-> "discard"],
                                             FlushStats(x.k, e.req) \o
                                             <<[x EXCEPT !.items = items]>>))
                 IN IF x.k = "check"
                    THEN {rest(RemoveAt1(x.items, j)) : j \in {j \in DOMAIN x.items : x.items[j] = n}}
                    ELSE \* at most MaxOps operations: one request, in any order
                         IF BagOf(n.ops) = BagOf(x.items) /\ n.svc = cfg.rep.svc /\ n.cid = cfg.rep.cid
                         THEN {rest(<<>>)} ELSE {}
            [] x.f = "done"  -> {go(Become(s, t, s.c, IF s.c.alive THEN Then(x.call) ELSE <<>>))}
            [] x.f = "await" -> {go(Become(s, t, s.c, Then(x.call)))}

Begun(cfg, rec) ==
  LET t == rec.th
  IN IF s.st[t] # <<>> THEN {}
     ELSE CASE rec.op = "call" -> {Begin(cfg, s, t, <<[f |-> "call", call |-> rec.call]>>)}
            [] rec.op = "fin" ->
                 IF <<rec.k, rec.id>> \in DOMAIN s.c.out
                 THEN {Fin(cfg, s, t, rec.k, rec.id, rec.st, rec.resp)} ELSE {}
            [] rec.op = "idle" -> IF IdleOk(s.c, rec.k) THEN {Begin(cfg, s, t, <<>>)} ELSE {}
            [] rec.op = "tick" -> {Begin(cfg, s, t, TickFrames)}
            [] rec.op = "notimer" -> IF s.c.timer THEN {} ELSE {Begin(cfg, s, t, <<>>)}
            [] rec.op = "destroy" -> {Begin(cfg, s, t, DestroyFrames(s.c))}

Ended(rec) ==
  LET t == rec.th
  IN IF s.st[t] # <<>> /\ Top(s, t).f = "end" THEN {[s EXCEPT !.st[t] = <<>>]} ELSE {}

----------------------------------------------------------------------------
Advance(t) ==
  /\ i' = i + 1
  /\ IF IOEnv.PROGRESS = "1" THEN PrintT(<<"AT", t.id, i>>) ELSE TRUE
  /\ IF i = Len(t.ev) THEN Finished(t) ELSE TRUE

CNext ==
  LET t == Traces[tr]
      cfg == CfgOf(t)
  IN /\ i \in DOMAIN t.ev
     /\ UNCHANGED <<tr, nbad>>
     /\ LET rec == t.ev[i]
        IN IF ~Par
           THEN IF rec.c = "par"
                THEN /\ s' = [ConcInit([c EXCEPT !.now = rec.t], Threads) EXCEPT
                                !.conn = IF c.alive THEN Kinds ELSE {}]
                     /\ c' = <<>>
                     /\ Advance(t)
                ELSE LET r == Step(cfg, c, rec)
                     IN IF r.bad = {}
                        THEN /\ c' = r.st /\ s' = <<>> /\ Advance(t)
                        ELSE /\ Report(t, i, r)
                             /\ FALSE
           ELSE \/ /\ rec.c = "seq"
                   /\ \A th \in Threads : s.st[th] = <<>>
                   /\ c' = s.c /\ s' = <<>> /\ Advance(t)
                \/ /\ rec.c = "b"
                   /\ s' \in Begun(cfg, rec) /\ c' = c /\ Advance(t)
                \/ /\ rec.c = "x"
                   /\ s' \in Observed(cfg, rec) /\ c' = c /\ Advance(t)
                \/ /\ rec.c = "e"
                   /\ s' \in Ended(rec) /\ c' = c /\ Advance(t)
                \/ /\ rec.c # "seq"
                   /\ \E th \in Threads : /\ s.st[th] # <<>> /\ HasHidden(s, th)
                                          /\ s' \in Hidden(cfg, s, th)
                   /\ UNCHANGED <<i, c>>
=============================================================================
