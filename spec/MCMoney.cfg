SPECIFICATION Spec
PROPERTY AllGood
CONSTANT MaxSteps = @STEPS@
CONSTANT Show = @PRINT@
CHECK_DEADLOCK FALSE
