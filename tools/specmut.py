#!/usr/bin/env python3
"""Breaks the specification on purpose, one way at a time, and explores the model:
the statements judged there must notice. specmut.py [name ...]

Not a check of /repo; it shows that the models are not vacuous."""
import concurrent.futures as cf
import os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")

# name, module, old text, new text, model, configuration, steps
M = [
    ("check stale answer kept", "CheckAgg", "!.lct = now, !.resp = resp]", "!.lct = now]", "MCCheck", "MC", 5),
    ("check answer of errors kept", "CheckAgg", "!.lct = now, !.resp = resp]",
     "!.lct = now, !.resp = IF @.err > 0 THEN @ ELSE resp]", "MCCheck", "MC", 5),
    ("check refresh late", "CheckAgg", "due == now - old.lct >= CFlushTime(cfg)", "due == now - old.lct > CFlushTime(cfg)",
     "MCCheck", "MC", 4),
    ("check refresh not marked", "CheckAgg", "!.lct = IF due THEN now ELSE @]", "!.lct = @]", "MCCheck", "MC", 5),
    ("check use not counted", "CheckAgg", "new == [old EXCEPT !.agg = agg, !.use = now,", "new == [old EXCEPT !.agg = agg,",
     "MCCheck", "MC", 5),
    ("check usage with errors", "CheckAgg", "pass == old.resp.err = 0", "pass == TRUE", "MCCheck", "MC", 5),
    ("check usage lost on eviction", "CheckAgg", "x.fl \\o CFlushed(cfg, Oldest(x.st, n))", "x.fl", "MCCheckOdd", "MC", 5),
    ("check usage kept after an error", "CheckAgg", "!.lct = now, !.resp = resp]",
     "!.lct = now, !.resp = resp, !.agg = <<>>]", "MCCheck", "MC", 5),
    ("check important cached", "CheckAgg", "req.op.imp # \"LOW\" \\/ cfg.n <= 0", "cfg.n <= 0", "MCCheckOdd", "MC", 5),
    ("check other service", "CheckAgg", "req.svc # cfg.svc \\/ ~req.hasop", "~req.hasop", "MCCheckOdd", "MC", 5),
    ("check failure cached", "Client", "IF st # \"OK\" THEN Done(cfg, c, what.call, st, resp)\n         ELSE LET x == CCache",
     "IF FALSE THEN Done(cfg, c, what.call, st, resp)\n         ELSE LET x == CCache", "MCCheck", "MC", 5),
    ("quota failure not open", "Client",
     "[] what.do = \"refresh\" ->\n         LET x == QCacheResponse(cfg.quo, c.quo, c.now, what.key,\n                                 IF st = \"OK\" THEN resp ELSE QNoResp)\n         IN FlushOut(cfg, [c EXCEPT !.quo = x.st], \"quota\", x.fl)",
     "[] what.do = \"refresh\" ->\n         LET x == QCacheResponse(cfg.quo, c.quo, c.now, what.key,\n                                 IF st = \"OK\" THEN resp ELSE QNoResp)\n         IN IF st = \"OK\" THEN FlushOut(cfg, [c EXCEPT !.quo = x.st], \"quota\", x.fl) ELSE c",
     "MCQuota", "MC", 4),
    ("quota two in flight", "QuotaAgg", "due == ~old.inflight /\\ now - old.lrt", "due == now - old.lrt", "MCQuota", "MC", 4),
    ("quota pass two in flight", "QuotaAgg", "due == ~x.inflight /\\ x.agg # <<>>", "due == x.agg # <<>>", "MCQuota", "MC", 4),
    ("quota tokens charged twice", "QuotaAgg", "!.agg = IF due THEN <<>> ELSE @]\n       IN", "!.agg = @]\n       IN", "MCQuota", "MC", 5),
    ("quota call before refresh", "QuotaAgg", "mid == IF due THEN [old EXCEPT !.inflight = TRUE, !.lrt = now,\n                                            !.agg = <<>>]",
     "mid == IF due THEN [old EXCEPT !.inflight = TRUE, !.lrt = now]", "MCQuota", "MC", 5),
    ("quota denied tokens kept", "QuotaAgg", "!.agg = IF resp.err > 0 THEN <<>> ELSE @]", "!.agg = @]", "MCQuota", "MC", 4),
    ("quota denied tokens added", "QuotaAgg", "new == IF ~QPositive(old) THEN mid", "new == IF FALSE THEN mid", "MCQuota", "MC", 4),
    ("quota mode", "QuotaAgg", "ELSE [base EXCEPT !.op.mode = \"NORMAL\"]", "ELSE base", "MCQuota", "MC", 4),
    ("quota never expires", "QuotaAgg", "st.all \\/ now - x.lrt >= QExpTime(cfg)", "st.all", "MCQuota", "MC", 4),
    ("quota evicted tokens lost", "QuotaAgg", "x.fl \\o QEvicted(cfg, x.st, Oldest(x.st.c, n))", "x.fl", "MCQuota", "MC", 5),
    ("report tie to the limit", "ReportAgg", "ELSE LET agg == AddToAgg(x.st[i].agg, op, cfg.kinds)", "ELSE LET agg == x.st[i].agg",
     "MCReport", "MC", 4),
    ("report lost on eviction", "ReportAgg", "fl |-> fl \\o RAggs(Oldest(x.st, n))]", "fl |-> fl]", "MCReport", "MC", 4),
    ("report expired twice", "ReportAgg", "IN [st |-> Newer(st, n), fl |-> RAggs(Oldest(st, n))]", "IN [st |-> st, fl |-> RAggs(Oldest(st, n))]",
     "MCReport", "MC", 4),
    ("report waits too long", "ReportAgg", "NumExpired(st, now, cfg.flushms * cfg.ms)", "NumExpired(st, now, 2 * cfg.flushms * cfg.ms)",
     "MCReport", "MC", 4),
    ("report important buffered", "ReportAgg", "cfg.n <= 0 \\/ \\E i \\in DOMAIN req.ops : req.ops[i].imp # \"LOW\"", "cfg.n <= 0", "MCReport", "MC", 4),
    ("statistics of flush", "Client", "[@ EXCEPT !.fc = @ + 1]", "@", "MCShared", "MC", 5),
    ("statistics of a received call", "Client", "Call(cfg, c, call) ==\n  LET c0 == Received(c, call.k)\n",
     "Call(cfg, c, call) ==\n  LET c0 == IF HasTransport(cfg, call) THEN Received(c, call.k) ELSE c\n", "MCShared", "MC", 3),
    ("statistics of a sent report", "Client", "!.stat.ops = @ + Len(call.req.ops)]", "!.stat.ops = @ + 1]", "MCReport", "MC", 4),
    ("destroy keeps checks", "Client", "x  == CFlushAll(cfg.chk, c.chk)", "x  == CRes(c.chk, \"ok\", NoResp, <<>>)", "MCShared", "MC", 4),
    ("destroy leaves the timer", "Client", "c4 == IF c3.timer THEN Emit(c3, [e |-> \"stop\"]) ELSE c3", "c4 == c3", "MCShared", "MC", 3),
    ("callback twice", "Client", "IN CASE x.ans = \"invalid\" -> Done(cfg, c1, call, \"INVALID_ARGUMENT\", QNoResp)\n       [] x.ans = \"ok\"      -> Done(cfg, c1, call, \"OK\", x.resp)",
     "IN CASE x.ans = \"invalid\" -> Done(cfg, c1, call, \"INVALID_ARGUMENT\", QNoResp)\n       [] x.ans = \"ok\"      -> Done(cfg, Done(cfg, c1, [call EXCEPT !.then = <<>>], \"OK\", x.resp), call, \"OK\", x.resp)",
     "MCNested", "MC", 3),
    ("callback forgotten", "Client", "[] what.do = \"report\" -> Done(cfg, c, what.call, st, resp)", "[] what.do = \"report\" -> c",
     "MCReport", "MC", 3),
    ("missing transport cached", "Client", "IN CASE ~HasTransport(cfg, call) -> Done(cfg, c0, call, \"INVALID_ARGUMENT\", NoResp)\n       [] OTHER -> ", "IN ",
     "MCNoTransport", "MC", 3),
    ("lru newest first", "LruCache", "!.ord = IF e1.pin = 0 /\\ Unlinks(s, upd) THEN Append(@, k) ELSE @]",
     "!.ord = IF e1.pin = 0 /\\ Unlinks(s, upd) THEN <<k>> \\o @ ELSE @]", "MCLruRoom", "MCLru", 4),
    ("lru evicts pinned", "LruCache", "ELSE IF s.tab[s.ord[i]].pin = 0 THEN MakeRoom(TakeOut(s, s.ord[i]), i)",
     "ELSE IF TRUE THEN MakeRoom(TakeOut(s, s.ord[i]), i)", "MCLruPins", "MCLru", 4),
    ("lru evicts too much", "LruCache", "Overfull(s) == Size(s) > s.max", "Overfull(s) == Size(s) >= s.max", "MCLruRoom", "MCLru", 4),
    ("lru pinned destroyed", "LruCache", "IN IF e.pin = 0 THEN [s1 EXCEPT", "IN IF TRUE THEN [s1 EXCEPT", "MCLruPins", "MCLru", 4),
    ("lru deferred kept", "LruCache", "THEN [s EXCEPT !.def = @ \\ {x}, !.gone = Append(@, x.id)]", "THEN [s EXCEPT !.def = @ \\ {x}]",
     "MCLruPins", "MCLru", 4),
    ("lru expires early", "LruCache", "s.tab[Head(s.ord)].use >= now - s.idle", "s.tab[Head(s.ord)].use > now - s.idle",
     "MCLruTime", "MCLru", 4),
    ("lru lookup extends life", "LruCache", "Unlinks(s, upd) == s.lru /\\ upd", "Unlinks(s, upd) == s.lru", "MCLruTime", "MCLru", 4),
    ("lru resize of deferred", "LruCache", "THEN [x EXCEPT !.u = u] ELSE x : x \\in @}]", "THEN x ELSE x : x \\in @}]", "MCLruRoom", "MCLru", 4),
    ("money carry", "Money", "WOf(n \\div WBase)), n % WBase>>", "WOf(IF n > WBase THEN 1 ELSE 0)), n % WBase>>", "MCMoney", "MCMoney", 4),
    ("money overflow too early", "Money", "IF InI64(s.u) THEN [st", "IF InI64(WAdd(a.u, b.u)) THEN [st", "MCMoney", "MCMoney", 4),
    ("money saturation", "Money", "u |-> I64Min, n |-> WOf(-999999999)", "u |-> I64Min, n |-> WZero", "MCMoney", "MCMoney", 4),
    ("dist bound", "Distribution", "[] kind = \"expl\" -> p[i] <= x\n\n", "[] kind = \"expl\" -> p[i] < x\n\n", "MCDist", "MCDist", 3),
    ("dist first sample", "Distribution", "IF first THEN X ELSE WMin(d[4], X)", "WMin(d[4], X)", "MCDist", "MCDist", 3),
    ("dist merge minimum", "Metrics", "WMin(to[4], from[4]), WMax", "to[4], WMax", "MCDist", "MCDist", 4),
    ("dist merge of others", "Metrics", "from[7] # \"none\" /\\ from[7] = to[7] /\\", "from[7] # \"none\" /\\", "MCDist", "MCDist", 4),
    ("delta end", "Metrics", "!.e = MaxEnd(from.e, @),\n          !.w = IF to.k \\in", "!.e = @,\n          !.w = IF to.k \\in", "MCMetrics", "MCMetrics", 2),
    ("delta of types", "Metrics", "MergeDelta(from, to) ==\n  IF from.k # to.k THEN to", "MergeDelta(from, to) ==\n  IF from.k # to.k THEN from",
     "MCMetrics", "MCMetrics", 2),
    ("gauge tie", "Metrics", "IF TsBefore(from.e, to.e) THEN to ELSE from", "IF TsBefore(to.e, from.e) THEN from ELSE to", "MCMetrics", "MCMetrics", 2),
    ("operation hull", "Metrics", "[agg EXCEPT !.s = MinStart(op.s, @),\n              !.e", "[agg EXCEPT !.e", "MCMetrics", "MCMetrics", 2),
    ("log order", "Metrics", "!.logs = @ \\o op.logs,", "!.logs = op.logs \\o @,", "MCMetrics", "MCMetrics", 2),
    ("key of report", "Keys", "ReportKey(op) == <<op.cons, op.name, op.l>>", "ReportKey(op) == <<op.name, op.l>>", "MCKeys", "MCKeys", 4),
    ("key of check", "Keys", "<<op.name, op.cons, op.l, [n", "<<op.name, op.cons, [n", "MCKeys", "MCKeys", 4),
    ("key of quota", "Keys", "QuotaKey(op) == <<op.method, op.cons, NameSet(op.m)>>", "QuotaKey(op) == <<op.method, op.cons, Len(op.m)>>",
     "MCKeys", "MCKeys", 4),
    ("threads: flush lost", "ConcClient", "\\/ x.f = \"disc\" /\\ \\A u \\in DOMAIN s.st : u = t \\/ \\A k \\in Kinds : ~Flushing(s, u, k)",
     "\\/ x.f = \"disc\"", "MCConcShared", "MCConc", 3),
    ("threads: answered and counted twice", "ConcClient", "ELSE Become(s, t, c, <<DoneFrame(x.call, x.st, x.resp)>>)",
     "ELSE Become(s, t, c, <<DoneFrame(x.call, x.st, x.resp), CountFrame(\"ic\", 1)>>)", "MCConcCheck", "MCConc", 3),
    ("threads: told before cached", "ConcClient", "ELSE <<[f |-> \"cache\", k |-> \"check\", req |-> w.req,\n                                              resp |-> x.resp]>> \\o tell)",
     "ELSE <<[f |-> \"cache\", k |-> \"check\", req |-> w.req,\n                                              resp |-> x.resp]>> \\o tell \\o tell)", "MCConcCheck", "MCConc", 3),
    ("threads: buffered reports lost", "ConcClient", "[] k = \"report\" -> LET r == RFlush(cfg.rep, c.rep, c.now) IN r.st = c.rep /\\ r.fl = <<>>}",
     "[] k = \"report\" -> LET r == RFlush(cfg.rep, c.rep, c.now) IN r.st = c.rep /\\ r.fl = <<>>}", "MCConcShared", "MCConc", 0),
    ("threads: sent again while in flight", "QuotaAgg", "due == ~old.inflight /\\ now - old.lrt", "due == now - old.lrt", "MCConcQuota", "MCConc", 3),
    ("threads: drain twice", "ConcClient", "Become(s, t, [c EXCEPT !.rep = r.st],\n                                    <<[f |-> \"drain\"",
     "Become(s, t, c,\n                                    <<[f |-> \"drain\"", "MCConcShared", "MCConc", 3),
    ("threads: lost answer of a blocking call", "ConcClient", "THEN [Become(s, t, c, <<>>) EXCEPT !.box = Put(@, x.call.n, <<x.st, x.resp>>)]",
     "THEN Become(s, t, c, <<>>)", "MCConcCheck", "MCConc", 0),
]


def one(m, work):
    name, module, old, new, model, base, steps = m
    if old is None or steps == 0 or old == new:
        return name, "skipped", ""
    d = tempfile.mkdtemp(dir=work)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    p = os.path.join(d, module + ".tla")
    text = open(p).read()
    if text.count(old) != 1:
        return name, "STALE", "%d places" % text.count(old)
    open(p, "w").write(text.replace(old, new))
    cfg = os.path.join(d, "mut.cfg")
    t = open(os.path.join(d, base + ".cfg")).read()
    open(cfg, "w").write(t.replace("@STEPS@", str(steps)).replace("@PRINT@", "FALSE").replace("@ADVS@", "1").replace("@MORE@", "OneInFlight" if model == "MCConcQuota" else ""))
    r = subprocess.run(["tlc", "-config", cfg, "-workers", "2", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
                        model + ".tla"], cwd=d, capture_output=True, text=True, timeout=1800)
    out = r.stdout
    shutil.rmtree(d)
    if "No error has been found" in out:
        return name, "MISSED", ""
    said = set(re.findall(r'^/\\ ok = \{(.*?)\}', out, re.M | re.S)) - {""}
    inv = re.findall(r"Invariant (\w+) is violated", out)
    if said:
        return name, "noticed", sorted(said)[-1].replace("\n", " ")
    if inv:
        return name, "noticed", inv[0]
    if "AllGood" in out or "violated" in out:
        return name, "noticed", "action property"
    return name, "ERROR", out[-1500:]


def main():
    want = sys.argv[1:]
    work = tempfile.mkdtemp(prefix="specmut")
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            for name, what, text in ex.map(lambda m: one(m, work), [m for m in M if not want or m[0] in want]):
                if what != "skipped":
                    print("%-8s %-34s %s" % (what, name, text), flush=True)
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    main()
