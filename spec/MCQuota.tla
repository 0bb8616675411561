-------------------------------- MODULE MCQuota --------------------------------
(* The quota cache alone. *)
EXTENDS MC

MyConf == [chk |-> Chk(0, 1, 1), quo |-> Quo(2, 2, 5), rep |-> Rep(0, 1),
           gt |-> {"quota"}, timer |-> TRUE]
MyTemplates == <<T("quota", 1), T("quota", 2), T("quota", 3)>>
MyAdvs == {0, 1, 2, 3, 6}
MyFins == <<<<"quota", 0, "OK", OkR>>, <<"quota", 0, "OK", ErrQ>>,
            <<"quota", 1, "OK", OkR>>, <<"quota", 0, "UNAVAILABLE", OkR>>>>
MyPlans == <<>>
=============================================================================
