------------------------------ MODULE MCMoney ------------------------------
(* Sums of amounts of money at the limits: every pair of the amounts made   *)
(* of the units Us and nanos Ns is a transition, checked against what a sum *)
(* is, and executed by the implementation.                                  *)
EXTENDS Money, TLC, Json

CONSTANTS MaxSteps, Show     \* MaxSteps > 4: more amounts, and triples

VARIABLES a, path, ok

Big == 1000000000
Near(x) == {WSub(x, WOf(1)), x, WAdd(x, WOf(1))}
Half == <<4, 611686018, 427387904>>              \* 2^62
Us == {u \in Near(I64Max) \cup Near(I64Min) \cup Near(WZero) \cup
        (IF MaxSteps > 4 THEN Near(Half) \cup Near(WNeg(Half)) \cup Near(WOf(Big)) \cup Near(WNeg(WOf(Big))) ELSE {}) :
       InI64(u)}
Ns == {0, 1, Big - 1, 500000000} \cup (IF MaxSteps > 4 THEN {Big - 2, 2, 499999999} ELSE {})
Amounts == {m \in [cur : {"USD"}, u : Us, n : {WOf(n) : n \in Ns} \cup {WOf(-n) : n \in Ns}] : Valid(m)}
Some == {m \in Amounts : m.n \in {WZero, WOf(1), WOf(Big - 1), WOf(-1), WOf(1 - Big)}}

Says(name, holds) == IF holds THEN {} ELSE {name}

\* The sum of the nanos when the sum of the units is u.
Rest(x, y, u) ==
  LET d == CHOOSE d \in -2..2 : WSub(WAdd(x.u, y.u), u) = WOf(d)
      b == WOf(Big)
      more == CASE d = 0 -> WZero [] d = 1 -> b [] d = -1 -> WNeg(b)
                [] d = 2 -> WAdd(b, b) [] d = -2 -> WNeg(WAdd(b, b))
  IN WAdd(WAdd(x.n, y.n), more)
Exact(x, y, s) == /\ WSub(WAdd(x.u, y.u), s.u) \in {WOf(d) : d \in -2..2}
                  /\ Rest(x, y, s.u) = s.n

\* Can the sum be written with 64 bits of units?
Fits(x, y) ==
  \E d \in {-1, 0, 1} :
    LET u == WAdd(WAdd(x.u, y.u), WOf(d))
    IN InI64(u) /\ Valid([cur |-> "USD", u |-> u, n |-> Rest(x, y, u)])

Neg(x) == [x EXCEPT !.u = WNeg(@), !.n = WNeg(@)]

Judge(x, y) ==
  LET r == Add(x, y)
  IN Says("commutes", Add(y, x) = r) \cup
     Says("valid", r.st = "INVALID_ARGUMENT" \/ Valid(r.sum)) \cup
     Says("exact", (r.st = "OK") <=> Fits(x, y)) \cup
     Says("sum", r.st # "OK" \/ Exact(x, y, r.sum)) \cup
     Says("range", r.st # "OUT_OF_RANGE" \/
            /\ Sign(x) = Sign(y) /\ Sign(r.sum) = Sign(x)
            /\ r.sum.u \in {I64Max, I64Min} /\ r.sum.n \in {WOf(Big - 1), WOf(1 - Big)}) \cup
     Says("neutral", Add(x, [x EXCEPT !.u = WZero, !.n = WZero]) = [st |-> "OK", sum |-> x]) \cup
     Says("inverse", x.u = I64Min \/ Sign(Add(x, Neg(x)).sum) = 0) \cup
     Says("currency", Add(x, [y EXCEPT !.cur = "EUR"]).st = "INVALID_ARGUMENT") \cup
     Says("associative", MaxSteps <= 4 \/ \A z \in Some :
            LET p == Add(y, z)
                q == Add(r.sum, z)
                w == Add(x, p.sum)
            IN r.st = "OK" /\ p.st = "OK" => q = w)

----------------------------------------------------------------------------
Digits(n) == SubSeq(ToString(Big + n), 2, 10)
Positive(x) == IF x[1] # 0 THEN ToString(x[1]) \o Digits(x[2]) \o Digits(x[3])
               ELSE IF x[2] # 0 THEN ToString(x[2]) \o Digits(x[3]) ELSE ToString(x[3])
Text(x) == IF WSign(x) < 0 THEN "-" \o Positive(WNeg(x)) ELSE Positive(x)
Line(x, y) == "USD " \o Text(x.u) \o " " \o Text(x.n) \o " USD " \o Text(y.u) \o " " \o Text(y.n)

ASSUME PrintT(<<"CONF", ToJson([comp |-> "money"])>>)

Init == a \in Amounts /\ path = <<>> /\ ok = {}
Next == /\ path = <<>>
        /\ \E y \in Amounts :
             /\ ok' = Judge(a, y)
             /\ path' = <<"add " \o Line(a, y) \o ";alias " \o Line(a, y) \o ";sat " \o Line(a, y)>>
             /\ UNCHANGED a
             /\ IF ok' = {} THEN TRUE ELSE PrintT(<<"BAD", ok', path'>>)
             /\ IF Show THEN PrintT(<<"PATH", ToJson(path')>>) ELSE TRUE

Good == ok' = {}
Spec == Init /\ [][Next]_<<a, path, ok>>
AllGood == [][Good]_<<a, path, ok>>
=============================================================================
