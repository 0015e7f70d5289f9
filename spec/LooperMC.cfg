SPECIFICATION Spec
CONSTANTS M = 3  R = 4  Ops = 2  F = 1
INVARIANTS RightCallback SlotsOk NoStarvation
CHECK_DEADLOCK FALSE
