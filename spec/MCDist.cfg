SPECIFICATION Spec
PROPERTY AllGood
VIEW View
CONSTANT MaxSteps = @STEPS@
CONSTANT Show = @PRINT@
CHECK_DEADLOCK FALSE
