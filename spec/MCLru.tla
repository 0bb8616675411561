------------------------------- MODULE MCLru -------------------------------
(* Exploration of the LRU cache: all sequences of at most MaxSteps commands.*)
(* Checked are the listed properties, stated on what a user knows: what was *)
(* inserted, what is pinned by whom, when a value was last used.            *)
EXTENDS LruCache, Json

CONSTANTS Modes,      \* <<mode as configured, time out in microseconds, max>>
          Keys, Units, Maxes, Idles, Advs, Flavours, Ops, MaxSteps, Show

VARIABLES s, now,
          pins,       \* the outstanding pins: <<[k, id, upd]>>
          h,          \* what the user knows, see below
          conf, path, ok

(* h.unit: value -> units, for the values that were not destroyed           *)
(* h.key : value -> its key; h.cur: key -> the value inserted last, unless  *)
(*         it was removed by the user; h.use: the values by the order of    *)
(*         their last use, oldest first; h.at: value -> time of that use    *)
None == [x \in {} |-> 0]
ZeroHist == [unit |-> None, key |-> None, cur |-> None, use |-> <<>>, at |-> None]

Cut(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Set(f, k, v) == (k :> v) @@ f
Live == DOMAIN h.unit
\* The name of the next value: the least free one.
Free == CHOOSE n \in 1..(Cardinality(Live) + 1) : n \notin Live /\ \A m \in 1..(n - 1) : m \in Live

Fresh(m) == LruInit(m[3], m[1] \in {"none", "lru", "inf-lru"},
                    IF m[1] \in {"lru", "age"} THEN m[2] ELSE -1)
Idle == conf[1] \in {"none", "lru", "inf-lru"}

----------------------------------------------------------------------------
\* The flavour of the pins of an entry has to be the same.
Flavour(k, upd) == IF \E j \in DOMAIN pins : pins[j].k = k
                   THEN pins[CHOOSE j \in DOMAIN pins : pins[j].k = k].upd ELSE upd
Commands ==
  {x \in
   [c : {"insert", "insertp"}, k : Keys, u : Units] \cup
   [c : {"lookup", "touch"}, k : Keys, upd : Flavours] \cup
   [c : {"release"}, j : DOMAIN pins] \cup
   [c : {"remove", "usetime"}, k : Keys] \cup
   [c : {"inuse"}, k : Keys, w : {"-", "cur", "def"}] \cup
   [c : {"idle"}, u : Idles] \cup
   [c : {"setmax"}, u : Maxes] \cup
   [c : {"resize"}, k : Keys, w : {"-", "cur", "def"}, u : Units] \cup
   [c : {"removeall", "removeunpinned", "expire", "age"}] : x.c \in Ops}

Timed == {"insert", "insertp", "lookup", "touch", "release", "expire", "idle"}
AdvsOf(x) == IF x.c \in Timed THEN Advs ELSE {0}

\* The value meant by a resize, as the driver chooses it.
Meant(x) ==
  LET cur == IF x.k \in DOMAIN s.tab THEN s.tab[x.k].id ELSE "none"
      old == {j \in DOMAIN pins : pins[j].k = x.k /\ ToString(pins[j].id) # cur}
  IN CASE x.w = "-"   -> ""
       [] x.w = "cur" -> cur
       [] x.w = "def" -> IF old = {} THEN "none"
                         ELSE ToString(pins[CHOOSE j \in old : \A i \in old : i <= j].id)

\* The specification calls its values by texts.
Exec(a, x, t) ==
  LET R(st) == [st |-> st, res |-> ""]
      id == ToString(Free)
  IN CASE x.c = "insert"  -> R(LInsert(a, t, x.k, id, x.u))
       [] x.c = "insertp" -> R(LInsertPinned(a, t, x.k, id, x.u))
       [] x.c = "lookup"  -> LLookup(a, t, x.k, Flavour(x.k, x.upd))
       [] x.c = "touch"   -> LTouch(a, t, x.k, Flavour(x.k, x.upd))
       [] x.c = "release" -> R(LRelease(a, t, pins[x.j].k, ToString(pins[x.j].id), pins[x.j].upd))
       [] x.c = "remove"  -> R(TakeOut(a, x.k))
       [] x.c = "setmax"  -> R(LSetMax(a, x.u))
       [] x.c = "idle"    -> R(LSetIdle(a, t, x.u))
       [] x.c = "resize"  -> R(LResize(a, x.k, Meant(x), x.u))
       [] x.c = "removeall" -> R(LRemoveAll(a))
       [] x.c = "removeunpinned" -> R(LRemoveUnpinned(a))
       [] x.c = "expire"  -> R(Age(a, t))
       [] x.c = "inuse"   -> [st |-> a, res |-> IF LInUse(a, x.k, Meant(x)) THEN "yes" ELSE "no"]
       [] x.c = "usetime" -> [st |-> a, res |-> ToString(LUseTime(a, x.k))]
       [] x.c = "age"     -> [st |-> a, res |-> ToString(LAge(a, t))]

B(x) == IF x THEN "1" ELSE "0"
Line(x) ==
  CASE x.c \in {"insert", "insertp"} -> x.c \o " " \o x.k \o " " \o ToString(x.u)
    [] x.c \in {"lookup", "touch"} -> x.c \o " " \o x.k \o " " \o B(x.upd)
    [] x.c = "release" -> x.c \o " " \o ToString(x.j - 1)
    [] x.c = "inuse" -> x.c \o " " \o x.k \o " " \o x.w
    [] x.c = "idle" -> x.c \o " " \o ToString(x.u)
    [] x.c \in {"remove", "usetime"} -> x.c \o " " \o x.k
    [] x.c = "setmax" -> x.c \o " " \o ToString(x.u)
    [] x.c = "resize" -> x.c \o " " \o x.k \o " " \o x.w \o " " \o ToString(x.u)
    [] OTHER -> x.c

----------------------------------------------------------------------------
(* What the user knows after a command with result res that destroyed gone. *)
Ids(seq) == {n \in Live \cup {Free} : \E j \in DOMAIN seq : seq[j] = ToString(n)}
Num(text) == CHOOSE n \in Live \cup {Free} : ToString(n) = text

Used(g, id, t) == [g EXCEPT !.use = Append(DropKey(@, id), id), !.at = Set(@, id, t)]
PinsOf(ps, id) == Cardinality({j \in DOMAIN ps : ps[j].id = id})

NextPins(x, res) ==
  CASE x.c = "insertp" -> Append(pins, [k |-> x.k, id |-> Free, upd |-> TRUE])
    [] x.c = "lookup" /\ res # "" -> Append(pins, [k |-> x.k, id |-> Num(res), upd |-> Flavour(x.k, x.upd)])
    [] x.c = "release" -> [j \in 1..(Len(pins) - 1) |-> IF j < x.j THEN pins[j] ELSE pins[j + 1]]
    [] OTHER -> pins

\* Before the destroyed values are forgotten.
Know(x, t, res, ps) ==
  CASE x.c \in {"insert", "insertp"} ->
         Used([h EXCEPT !.unit = Set(@, Free, x.u), !.key = Set(@, Free, x.k), !.cur = Set(@, x.k, Free)], Free, t)
    [] x.c = "touch" /\ res # "" /\ Flavour(x.k, x.upd) /\ Idle /\ PinsOf(pins, Num(res)) = 0 -> Used(h, Num(res), t)
    [] x.c = "touch" /\ res # "" /\ Flavour(x.k, x.upd) /\ Idle ->
         [h EXCEPT !.at = Set(@, Num(res), t)]
    [] x.c = "release" /\ pins[x.j].upd /\ Idle ->
         LET id == pins[x.j].id
         IN IF PinsOf(ps, id) = 0 THEN Used(h, id, t) ELSE [h EXCEPT !.at = Set(@, id, t)]
    [] x.c = "remove" -> [h EXCEPT !.cur = Cut(@, {x.k})]
    [] x.c = "removeall" -> [h EXCEPT !.cur = None]
    [] x.c = "removeunpinned" ->
         [h EXCEPT !.cur = Cut(@, {k \in DOMAIN @ : PinsOf(pins, @[k]) = 0})]
    [] x.c = "resize" ->
         LET vis == x.k \in DOMAIN s.tab
             old == {id \in Live : h.key[id] = x.k /\ ~(vis /\ s.tab[x.k].id = ToString(id))}
             hit == IF vis /\ (x.w = "-" \/ Meant(x) = s.tab[x.k].id) THEN {Num(s.tab[x.k].id)}
                    ELSE {id \in old : x.w = "-" \/ ToString(id) = Meant(x)}
         IN [h EXCEPT !.unit = [id \in DOMAIN @ |-> IF id \in hit THEN x.u ELSE @[id]]]
    [] OTHER -> h

Forget(g, S) == [g EXCEPT !.unit = Cut(@, S), !.key = Cut(@, S), !.at = Cut(@, S),
                          !.cur = Cut(@, {k \in DOMAIN @ : @[k] \in S}),
                          !.use = SelectSeq(@, LAMBDA id : id \notin S)]
Says(name, holds) == IF holds THEN {} ELSE {name}
Sum(f, S) == SumOver(f, S)

\* Was b used after a?
Pos(seq, id) == CHOOSE j \in DOMAIN seq : seq[j] = id
Older(g, a, b) == Pos(g.use, a) < Pos(g.use, b)

Judge(x, t, b, res, ps, g) ==
  LET gone == Ids(b.gone)
      all == DOMAIN g.unit
      left == all \ gone
      Pinned(id) == PinsOf(ps, id) > 0
      vis == {id \in left : g.key[id] \in DOMAIN b.tab /\ b.tab[g.key[id]].id = ToString(id)}
      inv == left \ vis
      wasvis == {id \in Live : h.key[id] \in DOMAIN s.tab /\ s.tab[h.key[id]].id = ToString(id)}
      out == (wasvis \ vis) \cup (gone \cap all)    \* left the table
      size == Sum(g.unit, left)
      free == {id \in vis : ~Pinned(id)}
      \* what has to go, because it was not used for too long
      late == IF b.idle < 0 THEN {}
              ELSE {id \in wasvis : h.at[id] < t - b.idle /\
                      (~Idle \/ PinsOf(pins, id) = 0 \/
                       \E j \in DOMAIN pins : pins[j].id = id /\ ~pins[j].upd)}
      room == x.c \in {"insert", "insertp", "setmax", "resize"}
      repl == IF x.c \in {"insert", "insertp"} /\ x.k \in DOMAIN h.cur THEN {h.cur[x.k]} ELSE {}
      victims == IF room THEN {id \in out \ repl : TRUE} ELSE {}
      youngest == {id \in victims : \A o \in victims : o = id \/ Older(g, o, id)}
  IN Says("C26 once", Len(b.gone) = Cardinality(gone) /\ gone \subseteq all /\
                      \A j \in DOMAIN b.gone : \E id \in all : b.gone[j] = ToString(id)) \cup
     Says("C25 kept", \A id \in gone : ~Pinned(id)) \cup
     Says("C25 deferred", \A id \in inv : Pinned(id)) \cup
     Says("C25 found", {ToString(id) : id \in inv} = {d.id : d \in b.def}) \cup
     Says("C25 accounting", /\ Size(b) = size
                            /\ PinnedSize(b) = Sum(g.unit, {id \in vis : Pinned(id)})
                            /\ DefUnits(b) = Sum(g.unit, inv)
                            /\ Cardinality(DOMAIN b.tab) = Cardinality(vis)) \cup
     Says("C25 released", x.c # "release" \/
            LET id == pins[x.j].id
            IN (id \in gone) <=> (~Pinned(id) /\ (id \notin wasvis \/ Sum(g.unit, all) > b.max))) \cup
     Says("C24 size", free = {} \/ size <= b.max) \cup
     Says("C24 order", ~room \/ \A v \in victims, f \in free : Older(g, v, f)) \cup
     Says("C24 unpinned", ~room \/ \A v \in victims : v \in gone) \cup
     Says("C24 needed", \A y \in youngest : size + g.unit[y] > b.max) \cup
     Says("C24 stays", room \/ x.c \in {"remove", "removeall", "removeunpinned", "release"} \/
            out \subseteq late) \cup
     Says("C24 lookup", x.c \notin {"lookup", "touch"} \/
            (res = "" <=> ~(x.k \in DOMAIN h.cur /\ h.cur[x.k] \in wasvis \ late))) \cup
     Says("C24 last", x.c \notin {"lookup", "touch"} \/ res = "" \/ Num(res) = h.cur[x.k]) \cup
     Says("C24 visible", \A id \in vis : g.key[id] \in DOMAIN g.cur /\ g.cur[g.key[id]] = id) \cup
     Says("C26 late", x.c \notin {"lookup", "touch", "expire", "idle"} \/ late \cap vis = {}) \cup
     Says("C26 time", x.c # "usetime" \/
            res = (IF \E id \in vis : g.key[id] = x.k
                   THEN ToString(g.at[CHOOSE id \in vis : g.key[id] = x.k]) ELSE "-1")) \cup
     Says("C26 time out", b.idle = (IF x.c = "idle" THEN x.u ELSE s.idle)) \cup
     Says("C25 in use", x.c # "inuse" \/
            (res = "yes" <=> \E id \in left : g.key[id] = x.k /\ (x.w = "-" \/ ToString(id) = Meant(x)))) \cup
     Says("invariants", LruTypeOk(b) /\ LruSorted(b))

----------------------------------------------------------------------------
ASSUME PrintT(<<"CONF", ToJson([comp |-> "lru"])>>)

Init == /\ conf \in Modes
        /\ s = Fresh(conf)
        /\ now = 0 /\ pins = <<>> /\ h = ZeroHist /\ ok = {}
        /\ path = <<"mode " \o conf[1] \o " " \o ToString(conf[2]) \o " " \o ToString(conf[3]), "new">>

Next ==
  /\ Len(path) < MaxSteps + 2
  /\ \E x \in Commands : \E d \in AdvsOf(x) :
       LET t == now + d
           r == Exec([s EXCEPT !.gone = <<>>], x, t)
           ps == NextPins(x, r.res)
           g == Know(x, t, r.res, ps)
       IN /\ now' = t
          /\ s' = [r.st EXCEPT !.gone = <<>>]
          /\ pins' = ps
          /\ ok' = Judge(x, t, r.st, r.res, ps, g)
          /\ h' = Forget(g, Ids(r.st.gone))
          /\ path' = Append(path, (IF d = 0 THEN "" ELSE "adv " \o ToString(d) \o ";") \o Line(x))
          /\ UNCHANGED conf
          /\ IF ok' = {} THEN TRUE ELSE PrintT(<<"BAD", ok', path'>>)
          /\ IF Show THEN PrintT(<<"PATH", ToJson(path')>>) ELSE TRUE

Rel(x) == IF now - x > 10 THEN 10 ELSE now - x
View ==
  <<conf, s.max, s.idle, [k \in DOMAIN s.tab |-> <<s.tab[k].id, s.tab[k].u, s.tab[k].pin, Rel(s.tab[k].use)>>], s.ord, s.def,
    pins, h.unit, h.key, h.cur, h.use, [id \in DOMAIN h.at |-> Rel(h.at[id])], ok>>

Good == ok' = {}
Spec == Init /\ [][Next]_<<s, now, pins, h, conf, path, ok>>
AllGood == [][Good]_<<s, now, pins, h, conf, path, ok>>
=============================================================================
