---------------------------- MODULE MCConcShared ----------------------------
(* All three kinds, caches of one entry. *)
EXTENDS MCConc
TS(k, key, sync) == Put(T(k, key), "sync", sync)
MyConf == [chk |-> Chk(1, 2, 3), quo |-> Quo(1, 2, 3), rep |-> Rep(1, 2),
           gt |-> Kinds, timer |-> TRUE]
MyTemplates == <<TS("check", 1, FALSE), TS("quota", 1, FALSE), TS("quota", 2, FALSE), TS("report", 1, FALSE),
                 TS("report", 2, FALSE)>>
MyAdvs == {3}
MyFins == <<<<"check", 0, "OK", OkR>>, <<"quota", 0, "OK", OkR>>>>
NoPlan == [k \in Kinds |-> <<>>]
MyPlans == <<NoPlan>>
MyBefore == <<<<>>,
   <<[c |-> "call", d |-> 0, k |-> "check", key |-> 1, n |-> 900], [c |-> "fin", d |-> 0, k |-> "check", id |-> 1, resp |-> OkR],
     [c |-> "call", d |-> 0, k |-> "quota", key |-> 1, n |-> 901], [c |-> "call", d |-> 0, k |-> "report", key |-> 1, n |-> 902]>>>>
MyThreads == {1, 2}
=============================================================================
