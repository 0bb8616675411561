------------------------------- MODULE MCConc -------------------------------
(* Exploration of the client used by several threads: all interleavings of  *)
(* the steps of ConcClient, of at most MaxOps operations taken from a       *)
(* finite set. Time advances only between operations. Checked are the       *)
(* listed properties as far as a user can observe them: when no operation   *)
(* is being executed the history h of what was observed must be one that a  *)
(* serial use could have, and in every state there is something to do.      *)
EXTENDS MCDefs, ConcClient

CONSTANTS Conf, Templates, Advs, Fins, Plans, Threads, MaxCmds, MaxAdvs,
          Before        \* commands executed before the threads start

VARIABLES s, h, bud     \* bud: numbers of operations and advances, and what each thread does

\* h: begun, done: calls and how often they were completed, with what; own:
\* the calls that were sent to the server themselves; st: statistics as they
\* should be; flushed, acc, out, charged: usage per identity; first: calls
\* that created entries of the quota cache; lossy; late: something was sent
\* when the client was gone.
ZeroHist == [begun |-> EmptyMap, done |-> EmptyMap, own |-> {}, st |-> ZeroStat,
             flushed |-> EmptyMap, acc |-> EmptyMap, out |-> EmptyMap,
             charged |-> EmptyMap, first |-> {}, lossy |-> {}, late |-> FALSE, twice |-> FALSE]

NewCall(j, m) ==
  LET t == Templates[j]
      c == CallOf([t EXCEPT !.then = <<>>], m)
      th == IF t.then = <<>> THEN <<>>
            ELSE <<Put(CallOf([t.then[1] EXCEPT !.then = <<>>], m + 1), "sync", FALSE)>>
  IN Put([c EXCEPT !.then = th], "sync", t.sync)

Name(j) == "op" \o ToString(Templates[j].key)
Names == {"op" \o ToString(k) : k \in 1..3}

Ids(k) == SetToSortSeq({x[2] : x \in {y \in DOMAIN s.c.out : y[1] = k}}, <)
Idle == \A t \in Threads : s.st[t] = <<>>
CallIds(call) == {call.n} \cup (IF call.then = <<>> THEN {} ELSE {call.then[1].n})

----------------------------------------------------------------------------
(* What is observed.                                                        *)
SentStat(st, k, fl, req) ==
  CASE k = "check"  -> IF fl THEN [st EXCEPT !.fc = @ + 1] ELSE [st EXCEPT !.ic = @ + 1]
    [] k = "quota"  -> IF fl THEN [st EXCEPT !.fq = @ + 1] ELSE [st EXCEPT !.iq = @ + 1]
    [] k = "report" -> IF fl THEN [st EXCEPT !.fr = @ + 1, !.ops = @ + Len(req.ops)]
                       ELSE [st EXCEPT !.ir = @ + 1, !.ops = @ + Len(req.ops)]

\* A request is given to a transport.
SawSend(g, k, fl, req, call) ==
  LET g1 == [g EXCEPT !.st = SentStat(@, k, fl, req), !.late = @ \/ ~s.c.alive,
                      !.own = @ \cup call]
  IN IF ~fl THEN g1
     ELSE CASE k = "check"  -> [g1 EXCEPT !.flushed = Inc(@, req.op.name, Amount(req.op.m))]
            [] k = "report" -> [g1 EXCEPT !.out =
                 FoldLeft(LAMBDA b, o : FoldLeft(LAMBDA d, l : Inc(d, <<o.name, l>>, 1), b, o.logs),
                          @, req.ops)]
            [] k = "quota"  -> IF req.op.id \in g.first THEN g1
                               ELSE [g1 EXCEPT !.charged = Inc(@, req.op.method, QAmount(req.op.m))]

SawDone(g, call, st, resp) ==
  LET then == IF s.c.alive THEN Then(call) ELSE <<>>
  IN
  [g EXCEPT !.begun = IF then = <<>> THEN @ ELSE Put(@, then[1].call.n, then[1].call), !.twice = @ \/ call.n \in DOMAIN g.done,
            !.done = Put(@, call.n, [k |-> call.k, st |-> st, err |-> resp.err,
                                     name |-> IF call.k = "check" THEN call.req.op.name
                                              ELSE IF call.k = "quota" THEN call.req.op.method ELSE ""])]

----------------------------------------------------------------------------
(* Steps.                                                                   *)
QKeys(st) == {st.c[j].k[1] : j \in DOMAIN st.c}
QEntry(st, name) == st.c[CHOOSE j \in DOMAIN st.c : st.c[j].k[1] = name]
Expired(q, now) == {k \in QKeys(q) : now - QEntry(q, k).lrt >= QExpTime(Conf.quo)}

HiddenStep(t) ==
  /\ HasHidden(s, t)
  /\ \E m \in Hidden(Conf, s, t) :
       LET x == Top(s, t)
           q == x.f = "cs" /\ x.call.k = "quota"
           name == IF q THEN x.call.req.op.method ELSE ""
           created == q /\ name \in QKeys(m.c.quo) /\ QEntry(m.c.quo, name).first.op.id = x.call.req.op.id
           negative == IF x.f = "cache" /\ x.k = "quota" /\ x.resp.err > 0 THEN {x.key[1]} ELSE {}
           gone == QKeys(s.c.quo) \ QKeys(m.c.quo)
           lost == IF x.f = "all" THEN gone
                   ELSE (gone \cup (IF created THEN {name} ELSE {})) \cap Expired(s.c.quo, s.c.now)
       IN /\ s' = m
          /\ h' = [h EXCEPT !.first = IF created THEN @ \cup {x.call.req.op.id} ELSE @,
                            !.lossy = @ \cup negative \cup lost]

VisibleStep(t) ==
  LET x == Top(s, t)
      go(m) == s' = Settle(Conf, m, t)
      it == Head(x.items)
      what(k, r) == IF k = "quota" THEN [do |-> "refresh", key |-> AggQuotaKey(r.op)] ELSE [do |-> "discard"]
  IN CASE x.f = "send" ->
            /\ go(Given(Conf, s, t, x.k, x.what, <<>>))
            /\ h' = SawSend(h, x.k, FALSE, x.req, {x.what.call.n})
       [] x.f = "flush" ->
            /\ go(Given(Conf, s, t, x.k, what(x.k, it),
                        FlushStats(x.k, it) \o <<FlushFrame(x.k, Tail(x.items))>>))
            /\ h' = SawSend(h, x.k, TRUE, it, {})
       [] x.f = "drain" ->
            LET items == IF x.k = "report" THEN RPack(Conf.rep, x.items) ELSE x.items
                rest == IF x.k = "report" THEN SubSeq(x.items, Len(items[1].ops) + 1, Len(x.items))
                        ELSE Tail(x.items)
            IN /\ go(Given(Conf, s, t, x.k, [do |-> "discard"],
                           FlushStats(x.k, items[1]) \o <<[x EXCEPT !.items = rest]>>))
               /\ h' = SawSend(h, x.k, TRUE, items[1], {})
       [] x.f = "done" ->
            /\ go(Become(s, t, s.c, IF s.c.alive THEN Then(x.call) ELSE <<>>))
            /\ h' = SawDone(h, x.call, x.st, x.resp)
       [] x.f = "await" ->
            /\ x.call.n \in DOMAIN s.box
            /\ go(Become(s, t, s.c, Then(x.call)))
            /\ h' = SawDone(h, x.call, s.box[x.call.n][1], s.box[x.call.n][2])
       [] x.f = "stop" -> go(Stopped(s, t)) /\ UNCHANGED h
       [] x.f = "end"  -> s' = [s EXCEPT !.st[t] = <<>>] /\ UNCHANGED h
       [] OTHER -> FALSE

\* No call may be made, or be under way, when the client is destroyed; ticks
\* and completions may.
Calling(t) == \E j \in DOMAIN s.st[t] : s.st[t][j].f \in {"cs", "await", "done", "tell", "send"}
MayDestroy == /\ \A t \in Threads : ~Calling(t) /\ (s.st[t] # <<>> => bud.op[t] # "call")
              /\ \A m \in DOMAIN h.begun : h.begun[m].then = <<>> \/ m \in DOMAIN h.done
Destroying == \E t \in Threads : s.st[t] # <<>> /\ bud.op[t] = "destroy"

Counted(g, call) == [g EXCEPT !.begun = Put(@, call.n, call)]

BeginStep(t) ==
  /\ s.st[t] = <<>>
  /\ bud.ops < MaxCmds
  /\ LET m == 10 * bud.ops
     IN \/ \E j \in DOMAIN Templates :
             /\ s.c.alive /\ ~Destroying
             /\ LET call == NewCall(j, m)
                IN /\ s' = Begin(Conf, s, t, <<[f |-> "call", call |-> call]>>)
                   /\ h' = Counted(h, call)
                   /\ bud' = [bud EXCEPT !.ops = @ + 1, !.op[t] = "call"]
        \/ \E j \in DOMAIN Fins :
             /\ Fins[j][2] < Len(Ids(Fins[j][1]))
             /\ LET f == Fins[j]
                IN s' = Fin(Conf, s, t, f[1], Ids(f[1])[f[2] + 1], f[3], f[4])
             /\ UNCHANGED h
             /\ bud' = [bud EXCEPT !.ops = @ + 1, !.op[t] = "fin"]
        \/ /\ s.c.alive /\ s.c.timer
           /\ s' = Begin(Conf, s, t, TickFrames)
           /\ UNCHANGED h
           /\ bud' = [bud EXCEPT !.ops = @ + 1, !.op[t] = "tick"]
        \/ /\ s.c.alive /\ ~Destroying /\ MayDestroy
           /\ s' = Begin(Conf, s, t, DestroyFrames(s.c))
           /\ UNCHANGED h
           /\ bud' = [bud EXCEPT !.ops = @ + 1, !.op[t] = "destroy"]

AdvStep ==
  /\ Idle /\ bud.advs < MaxAdvs /\ bud.ops > 0
  /\ \E d \in Advs : s' = [s EXCEPT !.c.now = @ + d]
  /\ bud' = [bud EXCEPT !.advs = @ + 1]
  /\ UNCHANGED h

RECURSIVE Prefix(_, _)
Prefix(c, cmds) ==
  IF cmds = <<>> THEN c
  ELSE LET x == Head(cmds)
           c1 == [c EXCEPT !.now = @ + x.d, !.ev = <<>>]
           c2 == CASE x.c = "adv"  -> c1
                   [] x.c = "call" -> Call(Conf, c1, CallOf(T(x.k, x.key), x.n))
                   [] x.c = "fin"  -> Finish(Conf, c1, x.k, x.id, "OK", x.resp)
       IN Prefix([c2 EXCEPT !.ev = <<>>], Tail(cmds))

Init == \E b \in DOMAIN Before : \E p \in DOMAIN Plans :
          LET c0 == Prefix(ClientInit(Conf, 0), Before[b])
              c1 == [c0 EXCEPT !.plan = Plans[p], !.stat = ZeroStat]
          IN /\ s = ConcInit(c1, Threads)
             /\ h = [ZeroHist EXCEPT !.first = {c1.quo.c[j].first.op.id : j \in DOMAIN c1.quo.c}]
             /\ bud = [ops |-> 0, advs |-> 0, op |-> [t \in Threads |-> ""]]

Next ==
  \/ AdvStep
  \/ \E t \in Threads :
       \/ BeginStep(t)
       \/ /\ s.st[t] # <<>>
          /\ HiddenStep(t) \/ VisibleStep(t)
          /\ UNCHANGED bud

Spec == Init /\ [][Next]_<<s, h, bud>>

----------------------------------------------------------------------------
(* The properties.                                                          *)
Started == DOMAIN h.begun
CallNo(m) == h.begun[m]
Outstanding == {s.c.out[x].call.n : x \in {x \in DOMAIN s.c.out : s.c.out[x].do \in {"check", "report", "quota"}}}

Total(k) == Cardinality({m \in Started : CallNo(m).k = k})
ExpectedStat == [h.st EXCEPT !.tc = Total("check"), !.tq = Total("quota"), !.tr = Total("report")]

Cached(st, name) ==
  LET i == {i \in DOMAIN st : st[i].k[1] = name}
  IN IF i = {} \/ \E j \in i : st[j].agg = <<>> THEN 0
     ELSE LET j == CHOOSE j \in i : TRUE IN Amount(st[j].agg[1].m)
QPending(st, name) ==
  IF name \notin QKeys(st) THEN 0
  ELSE LET e == QEntry(st, name) IN IF e.agg = <<>> THEN 0 ELSE e.agg[1].m["m"].w[3]

OfCheck(name) == {m \in DOMAIN h.done : h.done[m].k = "check" /\ h.done[m].name = name}
Served(name) == Cardinality({m \in OfCheck(name) : h.done[m].st = "OK" /\ h.done[m].err = 0 /\ m \notin h.own})
Asked(name) == Cardinality({m \in Started : CallNo(m).k = "check" /\ CallNo(m).req.op.name = name /\ m \in h.own})
Granted(name) == Cardinality({m \in DOMAIN h.done : h.done[m].k = "quota" /\ h.done[m].name = name /\
                                h.done[m].st = "OK" /\ h.done[m].err = 0 /\ ToString(m) \notin h.first})
RepAccepted == {m \in Started : CallNo(m).k = "report" /\ m \notin h.own /\ m \in DOMAIN h.done /\ h.done[m].st = "OK"}
RepCached(name, l) ==
  Cardinality({x \in (DOMAIN s.c.rep) \X (1..60) :
     /\ s.c.rep[x[1]].k[2] = name /\ x[2] \in DOMAIN s.c.rep[x[1]].agg.logs
     /\ s.c.rep[x[1]].agg.logs[x[2]] = l})

NoneTwice == ~h.twice
Silence == ~h.late
Answered == Idle => DOMAIN h.done = Started \ Outstanding
Statistics == Idle => (~s.c.alive \/ s.c.stat = ExpectedStat)
CheckUsage ==
  Idle /\ "check" \in Conf.gt =>
    \A k \in Names : /\ Served(k) <= Get(h.flushed, k) + Cached(s.c.chk, k)
                     /\ Get(h.flushed, k) + Cached(s.c.chk, k) <= Served(k) + Asked(k)
Reports ==
  Idle /\ "report" \in Conf.gt =>
    \A m \in RepAccepted : LET name == CallNo(m).req.ops[1].name
                           IN Get(h.out, <<name, ToString(m)>>) + RepCached(name, ToString(m)) =
                              Len(CallNo(m).req.ops)
Quota ==
  Idle /\ "quota" \in Conf.gt =>
    \A k \in Names : LET used == Get(h.charged, k) + QPending(s.c.quo, k)
                     IN IF k \in h.lossy THEN used <= Granted(k) ELSE used = Granted(k)
\* Where nothing is evicted or expires: never two requests for a key. Those
\* that are about to be sent count, and answers not yet cached.
InFlight(k) ==
  Cardinality({x \in DOMAIN s.c.out : s.c.out[x].do = "refresh" /\ s.c.out[x].key[1] = k}) +
  FoldLeft(LAMBDA a, t :
    a + FoldLeft(LAMBDA b, x :
          b + (IF x.f = "flush" /\ x.k = "quota"
               THEN Cardinality({j \in DOMAIN x.items : x.items[j].op.method = k})
               ELSE IF x.f = "cache" /\ x.k = "quota" /\ x.key[1] = k THEN 1 ELSE 0),
        0, s.st[t]), 0, SetToSortSeq(Threads, <))
OneInFlight == s.c.alive => \A k \in Names : InFlight(k) <= 1
NothingLeft == Idle /\ ~s.c.alive => s.c.rep = <<>> /\ s.c.quo.c = <<>> /\
                 \A j \in DOMAIN s.c.chk : s.c.chk[j].agg = <<>>
\* A thread can always go on, unless it waits for an answer that is
\* outstanding or about to be given by another thread.
Busy(t) == s.st[t] # <<>> /\ ~(Top(s, t).f = "await" /\ Top(s, t).call.n \notin DOMAIN s.box)
NotStuck == \/ \E t \in Threads : Busy(t)
            \/ \A t \in Threads : s.st[t] = <<>> \/ Top(s, t).call.n \in Outstanding

Inv == /\ NoneTwice /\ Silence /\ Answered /\ Statistics /\ CheckUsage /\ Reports
       /\ Quota /\ NothingLeft /\ NotStuck
=============================================================================
