SPECIFICATION Spec
INVARIANTS NoneTwice Silence Answered Statistics CheckUsage Reports Quota NothingLeft NotStuck @MORE@
CONSTANT Conf <- MyConf
CONSTANT Templates <- MyTemplates
CONSTANT Advs <- MyAdvs
CONSTANT Fins <- MyFins
CONSTANT Plans <- MyPlans
CONSTANT Before <- MyBefore
CONSTANT Threads <- MyThreads
CONSTANT MaxCmds = @STEPS@
CONSTANT MaxAdvs = @ADVS@
CHECK_DEADLOCK FALSE
