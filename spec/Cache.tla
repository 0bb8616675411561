------------------------------- MODULE Cache -------------------------------
(* What the aggregators need of the LRU cache: a sequence of entries, each  *)
(* with a key k and a time of use, ordered from the next to be discarded to *)
(* the last. LruCache.tla specifies the cache itself in full.               *)
EXTENDS Integers, Sequences, FiniteSets

Forever == -1                    \* an idle time that never expires

At(c, k) == IF \E i \in DOMAIN c : c[i].k = k
            THEN CHOOSE i \in DOMAIN c : c[i].k = k ELSE 0
Has(c, k) == At(c, k) # 0
Without(c, i) == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))

\* Number of entries at the front that have expired at time now.
NumExpired(c, now, idle) ==
  IF idle < 0 THEN 0
  ELSE LET stale == {i \in DOMAIN c : c[i].use < now - idle}
           fresh == DOMAIN c \ stale
       IN IF fresh = {} THEN Len(c)
          ELSE (CHOOSE i \in fresh : \A j \in fresh : i <= j) - 1

\* Number of entries at the front to discard so that one more fits in max.
NumEvicted(c, max) == IF Len(c) + 1 > max THEN Len(c) + 1 - max ELSE 0

Oldest(c, n) == SubSeq(c, 1, n)
Newer(c, n)  == SubSeq(c, n + 1, Len(c))
=============================================================================
