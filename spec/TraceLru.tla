------------------------------ MODULE TraceLru ------------------------------
(* Conformance of recorded runs of the LRU cache.                           *)
EXTENDS LruCache, Trace

VARIABLES tr, i, c

Fresh(cfg) == LruInit(cfg.max, cfg.mode \in {"none", "lru", "inf-lru"},
                      IF cfg.mode \in {"lru", "age"} THEN cfg.idle ELSE -1)

Do(s, e) ==
  LET R(st) == [st |-> st, res |-> ""]
  IN CASE e.c = "new"     -> R(s)
       [] e.c = "insert"  -> R(LInsert(s, e.t, e.k, e.id, e.u))
       [] e.c = "insertp" -> R(LInsertPinned(s, e.t, e.k, e.id, e.u))
       [] e.c = "lookup"  -> LLookup(s, e.t, e.k, e.upd)
       [] e.c = "touch"   -> LTouch(s, e.t, e.k, e.upd)
       [] e.c = "release" -> R(LRelease(s, e.t, e.k, e.id, e.upd))
       [] e.c = "remove"  -> R(TakeOut(s, e.k))
       [] e.c = "setmax"  -> R(LSetMax(s, e.u))
       [] e.c = "idle"    -> R(LSetIdle(s, e.t, e.u))
       [] e.c = "resize"  -> R(LResize(s, e.k, e.id, e.u))
       [] e.c = "removeall" -> R(LRemoveAll(s))
       [] e.c = "removeunpinned" -> R(LRemoveUnpinned(s))
       [] e.c = "expire"  -> R(Age(s, e.t))
       [] e.c \in {"clear", "destroy"} -> R(LRemoveAll(s))
       [] e.c = "inuse"   -> [st |-> s, res |-> IF LInUse(s, e.k, e.id) THEN "yes" ELSE "no"]
       [] e.c = "usetime" -> [st |-> s, res |-> ToString(LUseTime(s, e.k))]
       [] e.c = "age"     -> [st |-> s, res |-> ToString(LAge(s, e.t))]

ObsDiff(s, e) ==
  IF ~e.live THEN {}
  ELSE Diff("size", Size(s), e.obs.size) \cup
       Diff("entries", Cardinality(DOMAIN s.tab), e.obs.n) \cup
       Diff("pinned", PinnedSize(s), e.obs.pin) \cup
       Diff("deferred.size", DefUnits(s), e.obs.dsize) \cup
       Diff("deferred.entries", Cardinality(s.def), e.obs.dn) \cup
       Diff("max", s.max, e.obs.max) \cup
       Diff("content", {<<k, s.tab[k].id, s.tab[k].use>> : k \in DOMAIN s.tab},
                       {e.obs.tab[j] : j \in DOMAIN e.obs.tab}) \cup
       Diff("content.twice", Len(e.obs.tab), Cardinality({e.obs.tab[j] : j \in DOMAIN e.obs.tab}))

Step(s, e) ==
  LET x == Do([s EXCEPT !.gone = <<>>], e)
      bad == Diff("result." \o e.c, x.res, e.res) \cup
             Diff("destroyed", BagOf(x.st.gone), BagOf(e.gone)) \cup
             ObsDiff(x.st, e)
  IN [st |-> [x.st EXCEPT !.gone = <<>>], bad |-> bad,
      exp |-> IF bad = {} THEN <<>>
              ELSE <<x.res, x.st.gone, x.st.ord, Size(x.st), ToString(x.st.tab),
                     ToString(x.st.def)>>]

Init == /\ tr \in DOMAIN Traces
        /\ i = 1
        /\ c = Fresh(Traces[tr].cfg)

Next ==
  LET t == Traces[tr]
  IN /\ i \in DOMAIN t.ev
     /\ LET r == Step(c, t.ev[i])
        IN IF r.bad = {}
           THEN /\ IF i < Len(t.ev) THEN TRUE ELSE Finished(t)
                /\ i' = i + 1
                /\ c' = r.st
           ELSE /\ Report(t, i, r)
                /\ Finished(t)
                /\ i' = 0
                /\ c' = r.st
     /\ UNCHANGED tr

\* The specification's own invariants hold along every recorded run.
Sane == LruTypeOk(c) /\ LruSorted(c)
=============================================================================
