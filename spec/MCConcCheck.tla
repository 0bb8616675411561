---------------------------- MODULE MCConcCheck ----------------------------
(* Threads that check two identities in a cache of one entry. *)
EXTENDS MCConc
TS(k, key, sync) == Put(T(k, key), "sync", sync)
MyConf == [chk |-> Chk(1, 2, 3), quo |-> Quo(0, 1, 1), rep |-> Rep(0, 1),
           gt |-> {"check"}, timer |-> TRUE]
MyTemplates == <<TS("check", 1, FALSE), TS("check", 1, TRUE), TS("check", 2, FALSE),
                 [TS("check", 2, FALSE) EXCEPT !.then = <<T("check", 1)>>]>>
MyAdvs == {2}
MyFins == <<<<"check", 0, "OK", OkR>>, <<"check", 1, "OK", OkR>>, <<"check", 0, "OK", ErrC>>, <<"check", 0, "UNAVAILABLE", OkR>>>>
NoPlan == [k \in Kinds |-> <<>>]
MyPlans == <<NoPlan>>
MyBefore == <<<<>>,
   <<[c |-> "call", d |-> 0, k |-> "check", key |-> 1, n |-> 900], [c |-> "fin", d |-> 0, k |-> "check", id |-> 1, resp |-> OkR]>>>>
MyThreads == {1, 2}
=============================================================================
