SPECIFICATION FairSpec
CONSTANTS Notifiers = {1}  Waiters = {3, 5}  Timed = {4}  K = 2
INVARIANTS NoInvention NoLostNotify Mutex EndOk
PROPERTY Served
CHECK_DEADLOCK TRUE
