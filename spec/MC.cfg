SPECIFICATION Spec
PROPERTY AllGood
VIEW View
CONSTANT Conf <- MyConf
CONSTANT Templates <- MyTemplates
CONSTANT Advs <- MyAdvs
CONSTANT Fins <- MyFins
CONSTANT Plans <- MyPlans
CONSTANT MaxSteps = @STEPS@
CONSTANT Show = @PRINT@
CHECK_DEADLOCK FALSE
