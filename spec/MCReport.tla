-------------------------------- MODULE MCReport --------------------------------
(* The report cache alone. *)
EXTENDS MC

MyConf == [chk |-> Chk(0, 1, 1), quo |-> Quo(0, 1, 1), rep |-> Rep(2, 3),
           gt |-> {"report"}, timer |-> TRUE]
MyTemplates == <<T("report", 1), T("report", 2), [T("report", 3) EXCEPT !.nops = 2],
                 [T("report", 1) EXCEPT !.imp = "IMP2", !.nops = 2], [T("report", 1) EXCEPT !.svc = "other"],
                 [T("report", 1) EXCEPT !.nops = 0]>>
MyAdvs == {0, 1, 3, 4}
MyFins == <<<<"report", 0, "OK", OkR>>, <<"report", 1, "UNAVAILABLE", OkR>>>>
MyPlans == <<>>
=============================================================================
