------------------------------ MODULE LruCache ------------------------------
(* The LRU cache: entries with units, pins and deferred removals, idle mode *)
(* (lru) and age-based mode. An operation yields [st, res]; st.gone are the *)
(* values that it handed to the deleter.                                    *)
(* State:                                                                   *)
(*   max (units), lru (mode), idle (time out in microseconds, -1: none)     *)
(*   tab : key -> [id, u, pin, use]  the visible entries                    *)
(*   ord : the keys that may be discarded for room or age, oldest first     *)
(*         (in idle mode a pinned entry is not among them, unless its pins  *)
(*         do not count as a use)                                           *)
(*   def : the set of [k, id, u, pin] removed while pinned                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoEntries == [x \in {} |-> [id |-> "", u |-> 0, pin |-> 0, use |-> 0]]

LruInit(max, lru, idle) ==
  [max |-> max, lru |-> lru, idle |-> idle, tab |-> NoEntries, ord |-> <<>>,
   def |-> {}, gone |-> <<>>]

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE
                      IN f[x] + SumOver(f, S \ {x})

TabUnits(s) == SumOver([k \in DOMAIN s.tab |-> s.tab[k].u], DOMAIN s.tab)
DefUnits(s) == SumOver([d \in s.def |-> d.u], s.def)
Size(s)     == TabUnits(s) + DefUnits(s)
PinnedKeys(s) == {k \in DOMAIN s.tab : s.tab[k].pin > 0}
PinnedSize(s) == SumOver([k \in PinnedKeys(s) |-> s.tab[k].u], PinnedKeys(s))
Overfull(s) == Size(s) > s.max

DropKey(seq, k) == SelectSeq(seq, LAMBDA x : x # k)
DropTab(tab, k) == [x \in DOMAIN tab \ {k} |-> tab[x]]

\* An entry leaves the table: destroyed, or deferred while it is pinned.
TakeOut(s, k) ==
  IF k \notin DOMAIN s.tab THEN s
  ELSE LET e == s.tab[k]
           s1 == [s EXCEPT !.tab = DropTab(@, k), !.ord = DropKey(@, k)]
       IN IF e.pin = 0 THEN [s1 EXCEPT !.gone = Append(@, e.id)]
          ELSE [s1 EXCEPT !.def = @ \cup {[k |-> k, id |-> e.id, u |-> e.u, pin |-> e.pin]}]

\* Make room: the oldest entries that are not pinned, only as many as needed.
RECURSIVE MakeRoom(_, _)
MakeRoom(s, i) ==
  IF ~Overfull(s) \/ i > Len(s.ord) THEN s
  ELSE IF s.tab[s.ord[i]].pin = 0 THEN MakeRoom(TakeOut(s, s.ord[i]), i)
  ELSE MakeRoom(s, i + 1)

\* Entries which exceeded the time out.
RECURSIVE Age(_, _)
Age(s, now) ==
  IF s.idle < 0 \/ s.ord = <<>> \/ s.tab[Head(s.ord)].use >= now - s.idle THEN s
  ELSE Age(TakeOut(s, Head(s.ord)), now)

\* Now and then the pins of an entry do not count as a use (upd = FALSE).
Unlinks(s, upd) == s.lru /\ upd

LInsertPinned(s, now, k, id, u) ==
  LET s1 == TakeOut(s, k)
      s2 == [s1 EXCEPT !.tab = (k :> [id |-> id, u |-> u, pin |-> 1, use |-> now]) @@ @,
                       !.ord = IF s.lru THEN @ ELSE Append(@, k)]
  IN MakeRoom(s2, 1)

LRelease(s, now, k, id, upd) ==
  LET d == {x \in s.def : x.k = k /\ x.id = id}
  IN IF d # {}
     THEN LET x == CHOOSE x \in d : TRUE
          IN IF x.pin = 1
             THEN [s EXCEPT !.def = @ \ {x}, !.gone = Append(@, x.id)]
             ELSE [s EXCEPT !.def = (@ \ {x}) \cup {[x EXCEPT !.pin = @ - 1]}]
     ELSE
       LET e == s.tab[k]
           e1 == [e EXCEPT !.pin = @ - 1, !.use = IF Unlinks(s, upd) THEN now ELSE @]
           s1 == [s EXCEPT !.tab[k] = e1,
                           !.ord = IF e1.pin = 0 /\ Unlinks(s, upd) THEN Append(@, k) ELSE @]
       IN IF e1.pin = 0 /\ Overfull(s1) THEN TakeOut(s1, k) ELSE s1

LInsert(s, now, k, id, u) == LRelease(LInsertPinned(s, now, k, id, u), now, k, id, TRUE)

\* A hit is pinned.
LLookup(s, now, k, upd) ==
  LET s1 == Age(s, now)
  IN IF k \notin DOMAIN s1.tab THEN [st |-> s1, res |-> ""]
     ELSE [st |-> [s1 EXCEPT !.tab[k].pin = @ + 1,
                             !.ord = IF s1.tab[k].pin = 0 /\ Unlinks(s, upd)
                                     THEN DropKey(@, k) ELSE @],
           res |-> s1.tab[k].id]

LTouch(s, now, k, upd) ==
  LET x == LLookup(s, now, k, upd)
  IN IF x.res = "" THEN x
     ELSE [st |-> LRelease(x.st, now, k, x.res, upd), res |-> x.res]

\* Another time out (-1: none): what exceeded it is discarded at once.
LSetIdle(s, now, idle) == Age([s EXCEPT !.idle = idle], now)

LSetMax(s, max) == MakeRoom([s EXCEPT !.max = max], 1)

\* id = "": whatever is there; the visible entry first.
LResize(s, k, id, u) ==
  LET s1 == IF k \in DOMAIN s.tab /\ (id = "" \/ s.tab[k].id = id)
            THEN [s EXCEPT !.tab[k].u = u]
            ELSE [s EXCEPT !.def = {IF x.k = k /\ (id = "" \/ x.id = id)
                                    THEN [x EXCEPT !.u = u] ELSE x : x \in @}]
  IN MakeRoom(s1, 1)

RECURSIVE TakeAll(_, _)
TakeAll(s, ks) == IF ks = {} THEN s
                  ELSE LET k == CHOOSE k \in ks : TRUE
                       IN TakeAll(TakeOut(s, k), ks \ {k})

LRemoveAll(s) == TakeAll(s, DOMAIN s.tab)
LRemoveUnpinned(s) ==
  TakeAll(s, {k \in DOMAIN s.tab : s.tab[k].pin = 0})
\* id = "": whatever value.
LInUse(s, k, id) ==
  \/ k \in DOMAIN s.tab /\ (id = "" \/ s.tab[k].id = id)
  \/ \E d \in s.def : d.k = k /\ (id = "" \/ d.id = id)
LUseTime(s, k) == IF k \in DOMAIN s.tab THEN s.tab[k].use ELSE -1
LAge(s, now) == IF s.ord = <<>> THEN 0 ELSE now - s.tab[Head(s.ord)].use

----------------------------------------------------------------------------
(* What must hold in every state of the cache.                              *)
LruTypeOk(s) ==
  /\ \A k \in DOMAIN s.tab : s.tab[k].pin >= 0
  /\ \A d \in s.def : d.pin > 0
  /\ \A i, j \in DOMAIN s.ord : i # j => s.ord[i] # s.ord[j]
  /\ \A i \in DOMAIN s.ord : s.ord[i] \in DOMAIN s.tab
  \* What is not pinned can be found by the eviction.
  /\ \A k \in DOMAIN s.tab : s.tab[k].pin = 0 => \E i \in DOMAIN s.ord : s.ord[i] = k
\* The order of eviction is the order of use.
LruSorted(s) ==
  \A i, j \in DOMAIN s.ord : i < j => s.tab[s.ord[i]].use <= s.tab[s.ord[j]].use
=============================================================================
