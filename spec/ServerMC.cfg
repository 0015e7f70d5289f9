SPECIFICATION Spec
CONSTANTS W = 2  NC = 3  Users = 1
INVARIANTS AllClosed NoneLeft Rotation Fair1
CHECK_DEADLOCK FALSE
