-------------------------------- MODULE MCShared --------------------------------
(* All three caches, and no default transport for reports. *)
EXTENDS MC

MyConf == [chk |-> Chk(1, 2, 3), quo |-> Quo(1, 2, 3), rep |-> Rep(1, 2),
           gt |-> {"check", "quota"}, timer |-> TRUE]
MyTemplates == <<T("check", 1), [T("check", 2) EXCEPT !.own = TRUE], T("quota", 1),
                 [T("quota", 2) EXCEPT !.own = TRUE], T("report", 1),
                 [T("report", 2) EXCEPT !.own = TRUE]>>
MyAdvs == {0, 3}
MyFins == <<<<"check", 0, "OK", OkR>>, <<"quota", 0, "OK", OkR>>, <<"report", 0, "OK", OkR>>>>
MyPlans == <<>>
=============================================================================
