------------------------------ MODULE MCLruPins ------------------------------
(* Pins: several on one value, deferred removal, both flavours. *)
EXTENDS MCLru

MyModes == {<<"none", -1, 1>>, <<"age", 2, 1>>}
MyKeys == {"a", "b"}
MyUnits == {1}
MyMaxes == {0}
MyIdles == {}
MyAdvs == {0, 3}
MyFlavours == {TRUE, FALSE}
MyOps == {"insert", "insertp", "lookup", "release", "remove", "removeall", "removeunpinned", "inuse", "setmax"}
=============================================================================
