--------------------------------- MODULE MC ---------------------------------
(* Exploration of the client: all behaviours of at most MaxSteps commands   *)
(* taken from a finite set. Checked on the way are the listed properties,   *)
(* stated on what a user can observe (the commands and the events they      *)
(* cause) by means of the history h. Every transition can be printed as the *)
(* sequence of commands that leads to it, to be executed by the             *)
(* implementation.                                                          *)
EXTENDS MCDefs, Json

CONSTANTS Conf,       \* the configuration of the client
          Templates,  \* the calls: [k, key, imp, svc, hasop, own, then]
          Advs,       \* by how much the time may advance before a command
          Fins,       \* how requests may complete: <<kind, index, status, response>>
          Plans,      \* what transports may be told to do: [k, p]
          MaxSteps, Show

VARIABLES c, h, path, ok

\* The outstanding requests of a kind, oldest first.
OutIds(k) == SetToSortSeq({x[2] : x \in {y \in DOMAIN c.out : y[1] = k}}, <)

Commands ==
  (IF c.alive THEN {[c |-> "call", t |-> j] : j \in DOMAIN Templates} \cup
                   {[c |-> "destroy"]} \cup
                   {[c |-> "plan", p |-> j] : j \in DOMAIN Plans}
   ELSE {}) \cup
  {[c |-> "fin", f |-> j] : j \in {j \in DOMAIN Fins : Fins[j][2] < Len(OutIds(Fins[j][1]))}} \cup
  {[c |-> "tick"]}

\* A plan needs no time of its own.
AdvsOf(cmd) == IF cmd.c = "plan" THEN {0} ELSE Advs

Exec(d, cmd) ==
  CASE cmd.c = "call" -> Call(Conf, d, CallOf(Templates[cmd.t], 10 * Len(path)))
    [] cmd.c = "fin"  -> LET f == Fins[cmd.f]
                         IN Finish(Conf, d, f[1], OutIds(f[1])[f[2] + 1], f[3], f[4])
    [] cmd.c = "tick" -> Tick(Conf, d)
    [] cmd.c = "destroy" -> Destroy(Conf, d)
    [] cmd.c = "plan" -> [d EXCEPT !.plan[Plans[cmd.p].k] = Plans[cmd.p].p]

----------------------------------------------------------------------------
(* History. Only of what can be observed.                                   *)
(*   pend: the calls that are not complete                                  *)
(*   st: counters as the statistics should be                               *)
(* Of the check cache, which is an LRU map with time outs:                  *)
(*   order: identities, least recently used first; ans, ask, used: answer,  *)
(*   time when the server was last asked or answered, time of last use      *)
(*   hits: amount merged, sent: amount flushed, per identity                *)
(* Of reports: acc: number of operations accepted, by call; out: sent       *)
(* Of quota: first: the calls that created entries; granted, charged: per   *)
(*   key; lossy: keys of which tokens may have been dropped; fly: the      *)
(*   requests outstanding since the entry exists; qans: answers; qask: the  *)
(*   time of the last request                                               *)
ZeroHist ==
  [pend |-> {}, st |-> ZeroStat,
   order |-> <<>>, ans |-> EmptyMap, ask |-> EmptyMap, used |-> EmptyMap,
   hits |-> EmptyMap, sent |-> EmptyMap,
   acc |-> EmptyMap, out |-> EmptyMap,
   granted |-> EmptyMap, charged |-> EmptyMap, lossy |-> {}, fly |-> EmptyMap, mixed |-> {},
   qans |-> EmptyMap, qask |-> EmptyMap, first |-> {}]

\* The calls made by a command, in the order in which they start, as far as
\* they can start: all in the chain of a call.
RECURSIVE Chain(_)
Chain(call) == <<call>> \o (IF call.then = <<>> THEN <<>> ELSE Chain(call.then[1]))

SendsOf(ev) == SelectSeq(ev, LAMBDA x : x.e = "send")
DonesOf(ev) == SelectSeq(ev, LAMBDA x : x.e = "done")

\* Counting.
CountStat(s, ev) ==
  FoldLeft(LAMBDA a, x :
             CASE x.e # "send" -> a
               [] x.k = "check" /\ x.fl -> [a EXCEPT !.fc = @ + 1]
               [] x.k = "check" -> [a EXCEPT !.ic = @ + 1]
               [] x.k = "quota" /\ x.fl -> [a EXCEPT !.fq = @ + 1]
               [] x.k = "quota" -> [a EXCEPT !.iq = @ + 1]
               [] x.k = "report" /\ x.fl -> [a EXCEPT !.fr = @ + 1, !.ops = @ + Len(x.req.ops)]
               [] x.k = "report" -> [a EXCEPT !.ir = @ + 1, !.ops = @ + Len(x.req.ops)],
           s, ev)

FlushedChecks(s, ev) ==
  FoldLeft(LAMBDA a, x : IF x.e = "send" /\ x.k = "check" /\ x.fl
                         THEN Inc(a, x.req.op.name, Amount(x.req.op.m)) ELSE a, s, ev)

\* Log entry n of call n stands for an accepted operation.
FlushedReports(s, ev) ==
  FoldLeft(LAMBDA a, x :
             IF x.e = "send" /\ x.k = "report" /\ x.fl
             THEN FoldLeft(LAMBDA b, o : FoldLeft(LAMBDA d, l : Inc(d, <<o.name, l>>, 1), b, o.logs),
                           a, x.req.ops)
             ELSE a, s, ev)

Cached(st, name) ==
  LET i == {i \in DOMAIN st : st[i].k[1] = name}
  IN IF i = {} \/ \E j \in i : st[j].agg = <<>> THEN 0
     ELSE LET j == CHOOSE j \in i : TRUE IN Amount(st[j].agg[1].m)

\* The check cache, as a user understands it.
ChkEnabled == Conf.chk.n > 0
Fresh(g, name, now) == name \in DOMAIN g.ans /\ now - g.used[name] <= CIdle(Conf.chk)
ToEnd(seq, x) == Append(SelectSeq(seq, LAMBDA y : y # x), x)
LastN(seq, n) == IF Len(seq) > n THEN SubSeq(seq, Len(seq) - n + 1, Len(seq)) ELSE seq
Use(g, name, now) ==
  LET o == LastN(ToEnd(SelectSeq(g.order, LAMBDA y : Fresh(g, y, now) \/ y = name), name), Conf.chk.n)
      keep == {o[j] : j \in DOMAIN o}
  IN [g EXCEPT !.order = o, !.used = Put([y \in DOMAIN @ \cap keep |-> @[y]], name, now),
               !.ans = [y \in DOMAIN @ \cap keep |-> @[y]],
               !.ask = [y \in DOMAIN @ \cap keep |-> @[y]]]

\* A response of the server to a check.
Learn(g, name, now, resp) ==
  LET g1 == Use([g EXCEPT !.ans = Put(@, name, resp), !.ask = Put(@, name, now)], name, now)
  IN g1

\* Statements about one step, from state a with history g, by command cmd, to
\* state b whose events are ev. A violated one is named.
Says(name, p) == IF p THEN {} ELSE {name}

SendOf(ev, n) == {j \in DOMAIN ev : ev[j].e = "send" /\ ~ev[j].fl}
DoneOf(ev, n) == {j \in DOMAIN ev : ev[j].e = "done" /\ ev[j].call = n}

CheckCall(g, t, n, now, ev) ==
  LET name == "op" \o ToString(t.key)
      sent == SendOf(ev, n) # {}
      done == {ev[j] : j \in DoneOf(ev, n)}
      cacheable == ChkEnabled /\ t.imp = "LOW"
      hit == cacheable /\ Fresh(g, name, now)
      due == hit /\ now - g.ask[name] >= CFlushTime(Conf.chk)
      valid == t.svc = Conf.chk.svc /\ t.hasop /\ (t.own \/ "check" \in Conf.gt)
      g1 == IF ~valid \/ ~hit THEN g ELSE
            LET u == Use(g, name, now)
                v == IF due THEN [u EXCEPT !.ask = Put(@, name, now)] ELSE u
            IN IF g.ans[name].err = 0 THEN [v EXCEPT !.hits = Inc(@, name, 1)] ELSE v
  IN [h |-> g1,
      bad |->
        IF ~valid
        THEN Says("C04 C21 invalid", ~sent /\ \E d \in done : d.st = "INVALID_ARGUMENT")
        ELSE Says("C04 important", cacheable \/ sent) \cup
             Says("C01 miss", hit \/ sent) \cup
             Says("C01 answer", ~(hit /\ ~due) \/
                   (~sent /\ \E d \in done : d.st = "OK" /\ d.resp = g.ans[name])) \cup
             Says("C02 refresh", ~due \/ sent) \cup
             Says("C17 one of both", sent \/ Cardinality(done) = 1)]

\* Completion of a request: f = <<kind, index, status, response>>, what as in
\* the specification.
FinLearn(g, what, now, st, resp) ==
  IF what.do = "check" /\ st = "OK" /\ ChkEnabled
  THEN Learn(g, what.req.op.name, now, resp) ELSE g

\* Quota keys.
QKeys(st) == {st.c[j].k[1] : j \in DOMAIN st.c}
QEntry(st, name) == st.c[CHOOSE j \in DOMAIN st.c : st.c[j].k[1] = name]
QPending(st, name) ==
  IF name \notin QKeys(st) THEN 0
  ELSE LET e == QEntry(st, name)
       IN IF e.agg = <<>> THEN 0 ELSE e.agg[1].m["m"].w[3]

\* A flushed quota request which is not the first one of a key, or its
\* repetition, charges tokens.
Charged(g, ev) ==
  FoldLeft(LAMBDA a, x : IF x.e = "send" /\ x.k = "quota" /\ x.fl /\ x.req.op.id \notin g.first
                         THEN Inc(a, x.req.op.method, QAmount(x.req.op.m)) ELSE a,
           g.charged, ev)

----------------------------------------------------------------------------
\* In Fine models every request is kept outstanding and no call is made from
\* a callback, so that a step is one thing.
Fine == Plans = <<>> /\ \A j \in DOMAIN Templates : Templates[j].then = <<>>

Judge(g, a, cmd, b) ==
  LET ev == b.ev
      n  == 10 * Len(path)
      now == b.now
      chain == IF cmd.c = "call" THEN Chain(CallOf(Templates[cmd.t], n)) ELSE <<>>
      dones == DonesOf(ev)
      what == IF cmd.c = "fin"
              THEN a.out[<<Fins[cmd.f][1], OutIds(Fins[cmd.f][1])[Fins[cmd.f][2] + 1]>>]
              ELSE [do |-> "none"]
      outCalls(d) == {d.out[x].call.n : x \in {x \in DOMAIN d.out : d.out[x].do \in {"check", "report", "quota"}}}
      \* --- check
      t == IF cmd.c = "call" THEN Templates[cmd.t] ELSE [k |-> "none"]
      ck == IF Fine /\ t.k = "check" THEN CheckCall(g, t, n, now, ev) ELSE [h |-> g, bad |-> {}]
      g1 == IF Fine /\ cmd.c = "fin" /\ b.alive
            THEN FinLearn(ck.h, what, now, Fins[cmd.f][3], Fins[cmd.f][4]) ELSE ck.h
      \* --- report
      valid(tt) == tt.svc = Conf.rep.svc
      accepts == cmd.c = "call" /\ t.k = "report" /\ valid(t) /\ Conf.rep.n > 0 /\ t.imp = "LOW" /\
                 (t.own \/ "report" \in Conf.gt)
      g2 == IF accepts /\ Fine
            THEN [g1 EXCEPT !.acc = Inc(@, <<"op" \o ToString(t.key), ToString(n)>>, t.nops)] ELSE g1
      repOut == FlushedReports(g.out, ev)
      \* --- quota
      qname == IF t.k = "quota" THEN "op" \o ToString(t.key) ELSE ""
      qvalid == t.k = "quota" /\ t.svc = Conf.quo.svc /\ t.hasop /\ Conf.quo.n > 0 /\
                (t.own \/ "quota" \in Conf.gt)
      created == qvalid /\ qname \in QKeys(b.quo) /\
                 QEntry(b.quo, qname).first.op.id = ToString(n)
      granted == Fine /\ qvalid /\ ~created /\
                 \E j \in DOMAIN dones : dones[j].call = n /\ dones[j].st = "OK" /\ dones[j].resp.err = 0
      g3 == [g2 EXCEPT !.first = IF created THEN @ \cup {ToString(n)} ELSE @,
                       !.granted = IF granted THEN Inc(@, qname, 1) ELSE @]
      charged == Charged(g3, ev)
      qans0 == [k \in QKeys(b.quo) |-> IF (created /\ k = qname) \/ k \notin DOMAIN g.qans THEN QNoResp ELSE g.qans[k]]
      qans == IF Fine /\ what.do = "refresh" /\ what.key[1] \in DOMAIN qans0
              THEN [qans0 EXCEPT ![what.key[1]] = IF Fins[cmd.f][3] = "OK" THEN Fins[cmd.f][4] ELSE QNoResp]
              ELSE qans0
      \* when the server was last asked for a key
      qsends(k) == {j \in DOMAIN ev : ev[j].e = "send" /\ ev[j].k = "quota" /\ ev[j].fl /\ ev[j].req.op.method = k}
      qask == IF ~Fine THEN EmptyMap
              ELSE [k \in QKeys(b.quo) |-> IF (created /\ k = qname) \/ qsends(k) # {} \/ k \notin DOMAIN g.qask
                                            THEN now ELSE g.qask[k]]
      qdue == qvalid /\ ~created /\ qname \in DOMAIN g.qask /\ now - g.qask[qname] >= QRefreshTime(Conf.quo)
      negative == IF cmd.c = "fin" /\ what.do = "refresh" /\ Fins[cmd.f][3] = "OK" /\ Fins[cmd.f][4].err > 0
                  THEN {what.key[1]} ELSE {}
      gone == QKeys(a.quo) \ QKeys(b.quo)
      expired(k) == a.now - QEntry(a.quo, k).lrt >= QExpTime(Conf.quo)
      lost == {k \in gone : expired(k)} \cup
              (IF created /\ qname \in QKeys(a.quo) /\ expired(qname) THEN {qname} ELSE {}) \cup
              (IF cmd.c = "destroy" THEN QKeys(a.quo) ELSE {})
      finid == IF cmd.c = "fin" THEN OutIds(Fins[cmd.f][1])[Fins[cmd.f][2] + 1] ELSE 0
      fly0 == [k \in QKeys(b.quo) |-> IF (created /\ k = qname) \/ k \notin DOMAIN g.fly THEN {} ELSE g.fly[k]]
      mixed0 == g.mixed \cap (QKeys(b.quo) \ (IF created THEN {qname} ELSE {}))
      stale == what.do = "refresh" /\ what.key[1] \in DOMAIN fly0 /\ finid \notin fly0[what.key[1]]
      flyF == IF what.do = "refresh" /\ what.key[1] \in DOMAIN fly0
              THEN [fly0 EXCEPT ![what.key[1]] = @ \ {finid}] ELSE fly0
      flySends == FoldLeft(LAMBDA f, x : IF x.e = "send" /\ x.k = "quota" /\ x.fl /\ x.req.op.method \in DOMAIN f
                                         THEN [f EXCEPT ![x.req.op.method] = @ \cup {x.id}] ELSE f,
                           flyF, ev)
      g4 == [g3 EXCEPT !.pend = (@ \cup (outCalls(b) \ outCalls(a))) \ {dones[j].call : j \in DOMAIN dones},
                       !.st = CountStat([@ EXCEPT
                                 !.tc = @ + (IF t.k = "check" THEN 1 ELSE 0),
                                 !.tq = @ + (IF t.k = "quota" THEN 1 ELSE 0),
                                 !.tr = @ + (IF t.k = "report" THEN 1 ELSE 0)], ev),
                       !.sent = FlushedChecks(@, ev),
                       !.out = repOut,
                       !.charged = charged,
                       !.qans = qans,
                       !.lossy = @ \cup negative \cup lost,
                       !.fly = IF Fine THEN flySends ELSE EmptyMap,
                       !.qask = qask,
                       !.mixed = IF Fine THEN mixed0 \cup (IF stale THEN {what.key[1]} ELSE {}) ELSE {}]
      names == {"op" \o ToString(Templates[j].key) : j \in DOMAIN Templates}
      repCached(k) == LET i == {i \in DOMAIN b.rep : b.rep[i].k[2] = k[1]}
                      IN Cardinality({<<i1, l>> \in i \X (1..60) :
                           l \in DOMAIN b.rep[i1].agg.logs /\ b.rep[i1].agg.logs[l] = k[2]})
  IN [h |-> g4,
      bad |->
        ck.bad \cup
        (IF ~Fine THEN {} ELSE
           Says("C18 statistics", ~b.alive \/ b.stat = g4.st) \cup
           (IF "check" \in Conf.gt
            THEN Says("C03 usage", \A k \in names : Get(g4.hits, k) = Get(g4.sent, k) + Cached(b.chk, k))
            ELSE {}) \cup
           (IF "report" \in Conf.gt
            THEN Says("C06 conservation",
                      \A k \in DOMAIN g4.acc \cup DOMAIN g4.out : Get(g4.acc, k) = Get(g4.out, k) + repCached(k))
            ELSE {}) \cup
           Says("C07 immediately", t.k # "report" \/ ~valid(t) \/ accepts \/ ~(t.own \/ "report" \in Conf.gt) \/
                  \E j \in DOMAIN ev : ev[j].e = "send" /\ ~ev[j].fl /\ ev[j].req = Req(t, n)) \cup
           (IF "quota" \in Conf.gt
            THEN Says("C13 charged once", \A k \in names :
                        IF k \in g4.lossy
                        THEN Get(charged, k) + QPending(b.quo, k) <= Get(g4.granted, k)
                        ELSE Get(charged, k) + QPending(b.quo, k) = Get(g4.granted, k)) \cup
                 Says("C12 one in flight", \A k \in DOMAIN g4.fly \ g4.mixed : Cardinality(g4.fly[k]) <= 1)
            ELSE {}) \cup
           Says("C12 first use", ~created \/ "quota" \notin Conf.gt \/
                  \E j \in qsends(qname) : ev[j].req.op.id = ToString(n)) \cup
           Says("C12 C15 refresh", ~qdue \/ qname \in g.mixed \/ g.fly[qname] # {} \/ "quota" \notin Conf.gt \/
                  qsends(qname) # {}) \cup
           Says("C12 not before", \A k \in DOMAIN g.qask : k \notin QKeys(b.quo) \/ (created /\ k = qname) \/ qsends(k) = {} \/
                  now - g.qask[k] >= QRefreshTime(Conf.quo) \/
                  \* an ageing pass with tokens to charge
                  (k \in QKeys(a.quo) /\ now - QEntry(a.quo, k).use > QRefreshTime(Conf.quo) /\ QPending(a.quo, k) > 0)) \cup
           Says("C12 C14 C15 answer", ~qvalid \/ ~Fine \/
                  \A j \in DOMAIN dones : dones[j].call = n => dones[j].resp = qans[qname]) \cup
           Says("C14 C15 mode", \A j \in DOMAIN ev : ev[j].e = "send" /\ ev[j].k = "quota" /\ ev[j].fl =>
                  ev[j].req.op.mode = (IF qvalid /\ ~created /\ ev[j].req.op.method = qname /\ qans[qname].err > 0
                                       THEN "NORMAL" ELSE "BEST_EFFORT")) \cup
           Says("C14 nothing charged", ~Fine \/ \A k \in DOMAIN qans :
                  qans[k].err = 0 \/ QPending(b.quo, k) = 0) \cup
           Says("C12 no waiting", ~qvalid \/ (\E j \in DOMAIN dones : dones[j].call = n /\ dones[j].st = "OK"))) \cup
        \* a call completes at most once, and is complete unless it is outstanding
        Says("C17 twice", \A i, j \in DOMAIN dones : dones[i].call = dones[j].call => i = j) \cup
        Says("C17 known", \A j \in DOMAIN dones :
               dones[j].call \in g.pend \/ (dones[j].call >= n /\ dones[j].call < n + 10) \/
               \E x \in g.pend : dones[j].call > x /\ dones[j].call < x + 10) \cup
        Says("C17 pending", g4.pend = outCalls(b)) \cup
        (IF cmd.c = "call" THEN
           Says("C17 accounted", \E j \in DOMAIN dones : dones[j].call = n) \cap
           Says("C17 accounted", n \in outCalls(b)) ELSE {}) \cup
        \* bounds
        Says("C02 bound", Conf.chk.n <= 0 \/ Len(b.chk) <= Conf.chk.n) \cup
        Says("C08 bound", Conf.rep.n <= 0 \/ Len(b.rep) <= Conf.rep.n) \cup
        Says("C16 bound", Conf.quo.n <= 0 \/ Len(b.quo.c) <= Conf.quo.n) \cup
        Says("disabled", (Conf.chk.n > 0 \/ b.chk = <<>>) /\ (Conf.rep.n > 0 \/ b.rep = <<>>) /\
                         (Conf.quo.n > 0 \/ b.quo.c = <<>>)) \cup
        Says("C08 packing", \A j \in DOMAIN ev : ~(ev[j].e = "send" /\ ev[j].k = "report" /\ ev[j].fl)
                              \/ Len(ev[j].req.ops) \in 1..MaxOps) \cup
        \* ageing passes leave nothing that is too old
        (IF cmd.c # "tick" \/ ~a.alive THEN {} ELSE
           Says("C08 in time", \A j \in DOMAIN b.rep : a.now - b.rep[j].use <= Conf.rep.flushms * Conf.rep.ms) \cup
           Says("C02 idle", \A j \in DOMAIN b.chk : a.now - b.chk[j].use <= CIdle(Conf.chk)) \cup
           Says("C16 idle", Conf.quo.n <= 0 \/ \A j \in DOMAIN b.quo.c :
                  a.now - QEntry(a.quo, b.quo.c[j].k[1]).use <= QRefreshTime(Conf.quo) \/
                  a.now - b.quo.c[j].lrt < QExpTime(Conf.quo))) \cup
        \* the end
        Says("C19 nothing left", cmd.c # "destroy" \/ (b.chk = <<>> /\ b.rep = <<>> /\ b.quo.c = <<>>)) \cup
        Says("C19 timer", cmd.c # "destroy" \/ (a.timer <=> \E j \in DOMAIN ev : ev[j].e = "stop")) \cup
        Says("C19 no quota", cmd.c # "destroy" \/ \A j \in DOMAIN ev : ~(ev[j].e = "send" /\ ev[j].k = "quota")) \cup
        Says("C19 silence", a.alive \/ \A j \in DOMAIN ev : ev[j].e # "send")]

----------------------------------------------------------------------------
ASSUME PrintT(<<"CONF", ToJson([conf |-> Conf, templates |-> Templates, fins |-> Fins, plans |-> Plans])>>)

Init == /\ c = ClientInit(Conf, 0)
        /\ h = ZeroHist
        /\ path = <<>>
        /\ ok = {}

Next ==
  /\ Len(path) < MaxSteps
  /\ \E cmd \in Commands : \E d \in AdvsOf(cmd) :
       LET a == [c EXCEPT !.now = @ + d, !.ev = <<>>]
           b == Exec(a, cmd)
           j == Judge(h, a, cmd, b)
       IN /\ c' = b
          /\ h' = j.h
          /\ ok' = j.bad
          /\ path' = Append(path, Put(cmd, "d", d))
          /\ IF Show THEN PrintT(<<"PATH", ToJson(path')>>) ELSE TRUE

----------------------------------------------------------------------------
\* States are the same when they have the same future and the same debts.
Differences(f, g) == {<<k, Get(f, k) - Get(g, k)>> : k \in DOMAIN f \cup DOMAIN g}
FreshNow == {k \in DOMAIN h.ans : Fresh(h, k, c.now)}
Rel(x) == IF c.now - x > 100000 THEN 100000 ELSE c.now - x
View ==
  <<[j \in DOMAIN c.chk |-> <<c.chk[j].k, Rel(c.chk[j].use), Rel(c.chk[j].lct), c.chk[j].resp,
                               IF c.chk[j].agg = <<>> THEN 0 ELSE Amount(c.chk[j].agg[1].m)>>],
    [j \in DOMAIN c.quo.c |-> <<c.quo.c[j].k, Rel(c.quo.c[j].use), Rel(c.quo.c[j].lrt), c.quo.c[j].resp,
                                 c.quo.c[j].inflight,
                                 QPending(c.quo, c.quo.c[j].k[1])>>],
    [j \in DOMAIN c.rep |-> <<c.rep[j].k, Rel(c.rep[j].use), Amount(c.rep[j].agg.m)>>],
    c.alive, c.timer, c.plan,
    [k \in Kinds |-> LET ids == OutIds(k)
                     IN [j \in DOMAIN ids |->
                           LET w == c.out[<<k, ids[j]>>]
                           IN <<w.do, IF w.do = "refresh" THEN w.key ELSE <<>>,
                                IF w.do \in {"check", "quota"}
                                THEN IF k = "check" THEN w.req.op.name ELSE w.req.op.method ELSE "",
                                IF w.do \in {"check", "quota", "report"} THEN Len(Chain(w.call)) ELSE 0>>]],
    h.lossy, [k \in DOMAIN h.fly |-> {j \in DOMAIN OutIds("quota") : OutIds("quota")[j] \in h.fly[k]}],
    h.mixed, ok,
    \* the debts: nothing new where the specification keeps its promises
    SelectSeq(h.order, LAMBDA k : k \in FreshNow),
    [k \in FreshNow |-> <<h.ans[k], Rel(h.ask[k]), Rel(h.used[k])>>],
    Differences(h.hits, h.sent), Differences(h.granted, h.charged), h.qans, [k \in DOMAIN h.qask |-> Rel(h.qask[k])]>>

\* Checked on every transition, also those to states seen before.
Good == ok' = {}
Spec == Init /\ [][Next]_<<c, h, path, ok>>
AllGood == [][Good]_<<c, h, path, ok>>
=============================================================================
