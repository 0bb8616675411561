-------------------------------- MODULE MCQuotaOdd --------------------------------
(* Quota: expiry shorter than refresh, one entry, rejected calls, no default transport for some. *)
EXTENDS MC

MyConf == [chk |-> Chk(0, 1, 1), quo |-> Quo(1, 3, 2), rep |-> Rep(0, 1),
           gt |-> {"quota"}, timer |-> TRUE]
MyTemplates == <<T("quota", 1), T("quota", 2), [T("quota", 1) EXCEPT !.svc = "other"],
                 [T("quota", 1) EXCEPT !.hasop = FALSE]>>
MyAdvs == {0, 1, 3, 4}
MyFins == <<<<"quota", 0, "OK", OkR>>, <<"quota", 0, "OK", ErrQ>>,
            <<"quota", 0, "UNAVAILABLE", OkR>>, <<"quota", 1, "OK", ErrQ>>>>
MyPlans == <<>>
=============================================================================
