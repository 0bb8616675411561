------------------------------ MODULE MCLruTime ------------------------------
(* Time outs: exactly reached and exceeded, in both modes. *)
EXTENDS MCLru

MyModes == {<<"lru", 2, 2>>, <<"age", 2, 2>>, <<"lru", 0, 2>>, <<"inf-lru", -2, 2>>}
MyKeys == {"a", "b"}
MyUnits == {1}
MyMaxes == {}
MyIdles == {-1, 1, 3}
MyAdvs == {0, 2, 3}
MyFlavours == {TRUE, FALSE}
MyOps == {"insert", "lookup", "touch", "release", "expire", "usetime", "idle"}
=============================================================================
