SPECIFICATION Spec
CONSTANTS Notifiers = {1, 2}  Waiters = {3}  Timed = {4}  K = 2
INVARIANTS NoInvention NoLostNotify Mutex EndOk
CHECK_DEADLOCK TRUE
