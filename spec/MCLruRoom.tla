------------------------------ MODULE MCLruRoom ------------------------------
(* Room: units, maxima, replacement; no time. *)
EXTENDS MCLru

MyModes == {<<"none", -1, 2>>, <<"inf-age", -1, 2>>}
MyKeys == {"a", "b", "c"}
MyUnits == {1, 2}
MyMaxes == {0, 1, 3}
MyIdles == {}
MyAdvs == {0}
MyFlavours == {TRUE}
MyOps == {"insert", "insertp", "touch", "release", "setmax", "resize", "remove"}
=============================================================================
