-------------------------------- MODULE MCCheck --------------------------------
(* The check cache alone: two identities, room for one or two answers. *)
EXTENDS MC

MyConf == [chk |-> Chk(2, 3, 5), quo |-> Quo(0, 1, 1), rep |-> Rep(0, 1),
           gt |-> {"check"}, timer |-> TRUE]
MyTemplates == <<T("check", 1), T("check", 2), T("check", 3)>>
MyAdvs == {0, 1, 3, 6}
MyFins == <<<<"check", 0, "OK", OkR>>, <<"check", 0, "OK", ErrC>>,
            <<"check", 1, "OK", OkR>>, <<"check", 0, "UNAVAILABLE", OkR>>>>
MyPlans == <<>>
=============================================================================
