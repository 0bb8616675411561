-------------------------------- MODULE MCNested --------------------------------
(* Transports that complete in place and callbacks that call again. *)
EXTENDS MC

MyConf == [chk |-> Chk(1, 2, 4), quo |-> Quo(1, 2, 4), rep |-> Rep(1, 2),
           gt |-> Kinds, timer |-> TRUE]
R(key) == [T("report", key) EXCEPT !.nops = 1]
MyTemplates == <<[T("check", 1) EXCEPT !.then = <<T("check", 2)>>],
                 [T("quota", 1) EXCEPT !.then = <<T("check", 1)>>],
                 [T("quota", 2) EXCEPT !.then = <<R(2)>>],
                 [R(1) EXCEPT !.then = <<T("quota", 1)>>]>>
MyAdvs == {0, 3}
MyFins == <<<<"check", 0, "OK", OkR>>, <<"quota", 0, "OK", ErrQ>>,
            <<"report", 0, "OK", OkR>>>>
MyPlans == <<InPlace("check", 0, "OK", ErrC), InPlace("quota", 0, "OK", OkR),
             InPlace("quota", 0, "UNAVAILABLE", OkR), InPlace("report", 0, "OK", OkR)>>
=============================================================================
