-------------------------------- MODULE MCCheckOdd --------------------------------
(* Important, invalid and own-transport checks; a cache for one answer. *)
EXTENDS MC

MyConf == [chk |-> Chk(1, 2, 2), quo |-> Quo(0, 1, 1), rep |-> Rep(0, 1),
           gt |-> {"check"}, timer |-> TRUE]
MyTemplates == <<T("check", 1), [T("check", 1) EXCEPT !.imp = "IMP2"],
                 [T("check", 1) EXCEPT !.svc = "other"], [T("check", 2) EXCEPT !.hasop = FALSE],
                 [T("check", 2) EXCEPT !.own = TRUE]>>
MyAdvs == {0, 2, 3, 4}
MyFins == <<<<"check", 0, "OK", OkR>>, <<"check", 0, "OK", ErrC>>,
            <<"check", 1, "OK", OkR>>, <<"check", 0, "UNAVAILABLE", OkR>>>>
MyPlans == <<>>
=============================================================================
