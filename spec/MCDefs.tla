------------------------------- MODULE MCDefs -------------------------------
(* Definitions shared by the explorations of the client.                    *)
EXTENDS Client

Pass == [t |-> "", err |-> 0]

MV(x) == [l |-> <<>>, s |-> <<>>, e |-> <<>>, k |-> "int64", w |-> WOf(x), t |-> "",
          d |-> <<>>, r |-> ""]
Set1(x) == <<[n |-> "m", vs |-> <<MV(x)>>]>>

\* The request of the n-th call.
Op(t, n) == [id |-> ToString(n), name |-> "op" \o ToString(t.key), cons |-> "c",
             imp |-> t.imp, r |-> "", l |-> <<>>, s |-> <<>>, e |-> <<>>,
             logs |-> <<ToString(n)>>, m |-> Set1(1)]
Req(t, n) ==
  CASE t.k = "check" ->
         [svc |-> t.svc, cid |-> "", r |-> "", hasop |-> t.hasop, op |-> Op(t, n)]
    [] t.k = "quota" ->
         [svc |-> t.svc, cid |-> "", r |-> "", hasop |-> t.hasop,
          op |-> [id |-> ToString(n), method |-> "op" \o ToString(t.key), cons |-> "c",
                  mode |-> "BEST_EFFORT", l |-> <<>>, r |-> "", m |-> Set1(1)]]
    [] t.k = "report" ->
         [svc |-> t.svc, cid |-> "", r |-> "", ops |-> [j \in 1..t.nops |-> Op(t, n)]]

RECURSIVE CallOf(_, _)
CallOf(t, n) ==
  [n |-> n, k |-> t.k, req |-> Req(t, n), own |-> t.own,
   then |-> IF t.then = <<>> THEN <<>> ELSE <<CallOf(t.then[1], n + 1)>>]

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Inc(f, k, n) == Put(f, k, Get(f, k) + n)

Amount(m) == IF "m" \in DOMAIN m THEN m["m"][<<>>].w[3] ELSE 0
QAmount(m) == IF "m" \in DOMAIN m
              THEN FoldLeft(LAMBDA a, v : a + v.w[3], 0, m["m"]) ELSE 0

\* For the definitions of instances.
Svc == [svc |-> "svc", cid |-> "cid", ms |-> 1]
Chk(n, flush, exp) == [svc |-> "svc", cid |-> "cid", ms |-> 1, n |-> n, flushms |-> flush, expms |-> exp, kinds |-> <<>>]
Quo(n, ref, exp) == [svc |-> "svc", cid |-> "cid", ms |-> 1, n |-> n, refreshms |-> ref, expms |-> exp]
Rep(n, flush) == [svc |-> "svc", cid |-> "cid", ms |-> 1, n |-> n, flushms |-> flush, kinds |-> <<>>]
T(k, key) == [k |-> k, key |-> key, imp |-> "LOW", svc |-> "svc", hasop |-> TRUE, own |-> FALSE, then |-> <<>>, nops |-> 1]
OkR == [t |-> "", err |-> 0]
ErrC == [t |-> "check_errors { code: ABUSER_DETECTED }", err |-> 1]
ErrQ == [t |-> "allocate_errors { code: RESOURCE_EXHAUSTED }", err |-> 1]
InPlace(k, d, st, resp) == [k |-> k, p |-> <<[how |-> "inplace", d |-> d, st |-> st, resp |-> resp, rep |-> TRUE]>>]
=============================================================================
