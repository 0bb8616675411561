-------------------------------- MODULE MCNoTransport --------------------------------
(* No default transports at all. *)
EXTENDS MC

MyConf == [chk |-> Chk(1, 2, 3), quo |-> Quo(1, 2, 3), rep |-> Rep(1, 2),
           gt |-> {}, timer |-> TRUE]
MyTemplates == <<T("check", 1), [T("check", 1) EXCEPT !.own = TRUE], [T("check", 2) EXCEPT !.own = TRUE],
                 [T("quota", 1) EXCEPT !.own = TRUE], [T("quota", 2) EXCEPT !.own = TRUE],
                 T("quota", 1), [T("report", 1) EXCEPT !.own = TRUE], [T("report", 2) EXCEPT !.own = TRUE]>>
MyAdvs == {0, 2, 4}
MyFins == <<<<"check", 0, "OK", OkR>>>>
MyPlans == <<>>
=============================================================================
