INIT Init
NEXT Next
INVARIANT Progress
POSTCONDITION AllExplained
CHECK_DEADLOCK FALSE
CONSTANT NoOp = "none"
