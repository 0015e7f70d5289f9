SPECIFICATION Spec
CONSTANTS S = 2  B = 2  N = 1  Stopper = TRUE  Early = TRUE
INVARIANTS InOrder NoLostWakeup FewBytes
PROPERTY Delivered
PROPERTY Ends
CHECK_DEADLOCK FALSE
