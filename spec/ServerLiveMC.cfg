SPECIFICATION Spec
CONSTANTS W = 2  NC = 2  Users = 1
INVARIANTS AllClosed NoneLeft Rotation Fair1
PROPERTY Ends
CHECK_DEADLOCK FALSE
