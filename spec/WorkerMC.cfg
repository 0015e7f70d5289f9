SPECIFICATION Spec
CONSTANTS S = 2  B = 2  N = 2  Stopper = FALSE  Early = TRUE
INVARIANTS InOrder NoLostWakeup FewBytes
PROPERTY Delivered
CHECK_DEADLOCK TRUE
