SPECIFICATION Spec
CONSTANTS Q = 2 NP = 2 NC = 2 N = 2 Start = 1
INVARIANTS PopsHead Bounded FailOK
CHECK_DEADLOCK FALSE
