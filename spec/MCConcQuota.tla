---------------------------- MODULE MCConcQuota ----------------------------
(* Threads that use two metrics; nothing is evicted. *)
EXTENDS MCConc
TS(k, key, sync) == Put(T(k, key), "sync", sync)
MyConf == [chk |-> Chk(0, 1, 1), quo |-> Quo(3, 2, 100), rep |-> Rep(0, 1),
           gt |-> {"quota"}, timer |-> TRUE]
MyTemplates == <<TS("quota", 1, FALSE), TS("quota", 2, TRUE),
                 [TS("quota", 2, FALSE) EXCEPT !.then = <<T("quota", 1)>>]>>
MyAdvs == {2}
MyFins == <<<<"quota", 0, "OK", OkR>>, <<"quota", 1, "OK", OkR>>, <<"quota", 0, "OK", ErrQ>>, <<"quota", 0, "UNAVAILABLE", OkR>>>>
NoPlan == [k \in Kinds |-> <<>>]
MyPlans == <<NoPlan, [NoPlan EXCEPT !["quota"] = InPlace("quota", 0, "OK", OkR).p]>>
MyBefore == <<<<>>,
   <<[c |-> "call", d |-> 0, k |-> "quota", key |-> 1, n |-> 900], [c |-> "fin", d |-> 0, k |-> "quota", id |-> 1, resp |-> OkR],
     [c |-> "adv", d |-> 2]>>>>
MyThreads == {1, 2}
=============================================================================
