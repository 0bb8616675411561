SPECIFICATION Spec
PROPERTY AllGood
VIEW View
CONSTANT Modes <- MyModes
CONSTANT Keys <- MyKeys
CONSTANT Units <- MyUnits
CONSTANT Maxes <- MyMaxes
CONSTANT Idles <- MyIdles
CONSTANT Advs <- MyAdvs
CONSTANT Flavours <- MyFlavours
CONSTANT Ops <- MyOps
CONSTANT MaxSteps = @STEPS@
CONSTANT Show = @PRINT@
CHECK_DEADLOCK FALSE
